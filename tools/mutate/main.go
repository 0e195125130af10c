// Command mutate lists small textual changes of Go source files, one JSON object per line. It is used
// to measure the checks (tools/campaign.py), by no check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Start, End int
	New        string `json:"new"`
	Old        string `json:"old"`
	Kind       string `json:"kind"`
	Fn         string `json:"fn"`
}

var swap = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"^"},
}

var names = map[string]string{
	"AddLvl": "SubLvl", "SubLvl": "AddLvl", "MulCoeffsMontgomeryAndAddLvl": "MulCoeffsMontgomeryLvl",
	"MulCoeffsMontgomeryLvl": "MulCoeffsMontgomeryAndAddLvl", "NTTLvl": "InvNTTLvl", "InvNTTLvl": "NTTLvl",
	"NTT": "InvNTT", "InvNTT": "NTT", "Add": "Sub", "Sub": "Add", "MFormLvl": "InvMFormLvl", "MinInt": "MaxInt",
	"MaxInt": "MinInt", "RingQ": "RingP", "QCount": "PCount", "PCount": "QCount", "MaxLevel": "QCount",
	"MulCoeffsMontgomeryAndSubLvl": "MulCoeffsMontgomeryAndAddLvl", "Union": "Copy", "CopyNew": "CopyNew",
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(a, b token.Pos, nw, kind string) {
				e := edit{f, fs.Position(a).Line, off(a), off(b), nw, string(src[off(a):off(b)]), kind, fd.Name.Name}
				if e.Old == e.New {
					return
				}
				j, _ := json.Marshal(e)
				fmt.Println(string(j))
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swap[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil && v >= 0 && v < 1000 {
							emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "int+1")
							if v > 0 {
								emit(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "int-1")
							}
						}
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt:
							emit(y.Pos(), y.End(), "", "drop call")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								if len(y.Lhs) == 1 && len(y.Rhs) == 1 {
									emit(y.Pos(), y.End(), "", "drop assign")
								}
							}
						case *ast.ReturnStmt:
							if len(y.Results) == 0 {
								emit(y.Pos(), y.End(), "", "drop return")
							}
						case *ast.IncDecStmt:
							emit(y.Pos(), y.End(), "", "drop inc")
						}
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if true")
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if false")
				case *ast.CallExpr:
					if se, ok := x.Fun.(*ast.SelectorExpr); ok {
						if r, ok := names[se.Sel.Name]; ok {
							emit(se.Sel.Pos(), se.Sel.End(), r, "name")
						}
					}
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						sa, sb := string(src[off(a.Pos()):off(a.End())]), string(src[off(b.Pos()):off(b.End())])
						if sa != sb {
							emit(a.Pos(), b.End(), sb+", "+sa, "swap args")
						}
					}
				case *ast.Ident:
					switch x.Name {
					case "level", "levelQ", "levelP", "beta", "alpha":
						emit(x.Pos(), x.End(), "("+x.Name+"-1)", "ident-1")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						emit(x.OpPos, x.OpPos+1, "", "drop unary")
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						emit(x.Pos(), x.End(), "", "drop branch")
					}
				}
				return true
			})
		}
	}
}
