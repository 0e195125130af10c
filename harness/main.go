// Command verif is the property-based test harness for /repo.
//
//	verif check -id C01 -tier quick   driver: forks shards, merges evidence
//	verif worker ...                  one shard (internal)
//	verif replay -id C01 -file F      re-runs one stored failing case
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"testing"
)

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check|worker|replay|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	id := flag.String("id", "", "property id")
	sub := flag.String("sub", "", "sub-property")
	tier := flag.String("tier", "quick", "quick|thorough")
	shard := flag.Int("shard", 0, "shard number")
	seed := flag.Int64("seed", 1, "base seed")
	checks := flag.Int("checks", 1, "cases")
	out := flag.String("out", "", "result file")
	work := flag.String("work", "", "scratch directory")
	file := flag.String("file", "", "replay file")
	root := flag.String("root", "/verif", "verification root")
	flag.Parse()
	switch cmd {
	case "check":
		os.Exit(driver(*root, *id, *tier, *seed))
	case "worker":
		os.Exit(worker(*id, *sub, *shard, *seed, *checks, *out, *work, ""))
	case "replay":
		os.Exit(replay(*id, *file))
	case "list":
		var ids []string
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}
