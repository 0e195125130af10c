#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in defs*.py and confirms each one in a scratch copy:
the patch applies, the tree builds, the stable tests pass (--tests), the demo passes without and fails with the patch.

usage: make.py [--tests] [--check] [id ...]     --check also runs the property's own check against it"""
import os, sys, subprocess, shutil, json, tempfile, glob, importlib.util, difflib
here = os.path.dirname(os.path.abspath(__file__))
seeds = {}
for f in sorted(glob.glob(here + "/defs*.py")):
    spec = importlib.util.spec_from_file_location("d", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for s in m.SEEDS:
        assert s["id"] not in seeds, s["id"]
        seeds[s["id"]] = s
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = [a for a in sys.argv[1:] if a.startswith("--")]
ids = args or list(seeds)
env = {"PATH": "/opt/veriftools/go1.27.3/bin:/usr/bin:/bin", "HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "CGO_ENABLED": "0"}
IMPORTS = {"math.": "math", "cmplx.": "math/cmplx", "fmt.": "fmt", "big.": "math/big", "mkckks.": "mk-lattigo/mkckks", "mkbfv.": "mk-lattigo/mkbfv",
           "mkrlwe.": "mk-lattigo/mkrlwe", "cnn.": "mk-lattigo/cnn", "ckks.": "github.com/ldsec/lattigo/v2/ckks", "bfv.": "github.com/ldsec/lattigo/v2/bfv", "ring.": "github.com/ldsec/lattigo/v2/ring",
           "rlwe.": "github.com/ldsec/lattigo/v2/rlwe", "utils.": "github.com/ldsec/lattigo/v2/utils"}
import re
def sh(cmd, cwd, e=env, **k): return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for id in ids:
    s = seeds[id]; d = os.environ.get("SEED_OUT", "/verif/seeded") + "/" + id
    w = tempfile.mkdtemp(prefix="seed-"); r = w + "/repo"
    sh(["cp", "-a", "/repo", r], "/")
    try:
        for (f, old, new) in s["edits"]:
            p = f"{r}/{f}"; src = open(p).read(); n = src.count(old)
            if isinstance(new, tuple): new, k = new; assert n >= k, (id, n); parts = src.split(old); src = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                assert n == 1, (id, f, n, old); src = src.replace(old, new)
            open(p, "w").write(src)
        fm = subprocess.run(["gofmt", "-l"] + [f for f, _, _ in s["edits"]], cwd=r, env=env, capture_output=True, text=True)
        b = sh(["go", "build", "./..."], r, {**env, "GOFLAGS": "-mod=mod -modfile=" + w + "/m.mod"} if not shutil.copy("/repo/go.mod", w + "/m.mod") else None)
        shutil.copy("/opt/vp/mk-lattigo.sum", w + "/m.sum")
        b = sh(["go", "build", "./..."], r, {**env, "GOFLAGS": "-mod=mod -modfile=" + w + "/m.mod"})
        if b.returncode: print(id, "BUILD", b.stderr[-800:]); continue
        diff = sh(["git", "diff"], r).stdout
        base = {}
        bad = []
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]; base[cur] = sh(["git", "show", "0c2a25c:" + cur], "/repo").stdout.splitlines()
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base[cur]: bad.append(l)
        os.makedirs(d, exist_ok=True)
        for o in os.listdir(d): os.unlink(d + "/" + o)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(here + "/demo.sh", d); shutil.copy(here + "/lib.go", d); shutil.copy("/verif/harness/go.sum", d)
        body = s["demo"]
        imps = [v for k, v in IMPORTS.items() if re.search(r"(?<![\w.])" + re.escape(k), body)]
        open(d + "/main.go", "w").write("package main\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in imps) + ")\n\n" + body.strip() + "\n")
        sh(["gofmt", "-w", d + "/main.go"], d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        good = sh(["bash", d + "/demo.sh"], "/repo"); br = sh(["bash", d + "/demo.sh"], r)
        print(id, "lines-not-in-base:" if bad else "", bad or "", "unchanged:", good.returncode, "patched:", br.returncode, (good.stdout + good.stderr)[-600:] if good.returncode else "", "|", (br.stdout + br.stderr).strip()[-200:], flush=True)
        if "--tests" in opts:
            e = {**env, "GOFLAGS": "-mod=mod -modfile=" + w + "/m.mod"}
            t = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "-p", "1", "./mkrlwe", "./mkckks", "./mkbfv"], r, e)
            ok = set()
            for l in t.stdout.splitlines():
                try: j = json.loads(l)
                except Exception: continue
                if j.get("Action") == "pass" and j.get("Test"): ok.add(j["Package"] + "::" + j["Test"]); ok.add(j["Package"] + "/" + j["Test"]); ok.add(j["Test"])
            miss = [x for x in stable if x not in ok and x.split("::")[-1] not in ok]
            print(id, "tests:", "ok" if not miss else ("FAIL", miss[:3], len(miss)), flush=True)
        if "--check" in opts:
            # a private copy of the harness pointed at the patched tree
            shutil.copytree("/verif/harness", w + "/harness")
            gm = open(w + "/harness/go.mod").read().replace("=> /repo", "=> " + r); open(w + "/harness/go.mod", "w").write(gm)
            shutil.copy("/verif/known_findings.txt", w)
            e = {**env, "GOFLAGS": "-mod=mod", "GOSUMDB": "off", "GOWORK": "off"}
            c = sh(["go", "build", "-o", w + "/bin", "."], w + "/harness", e)
            if c.returncode: print(id, "harness build", c.stderr[-500:]); continue
            for prop in [s["property"]] + s.get("also", []):
                c = sh([w + "/bin", "check", "-id", prop, "-tier", "quick", "-seed", "1", "-root", w], w, e)
                print(id, prop, "CAUGHT" if c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout else f"missed rc={c.returncode}", c.stdout.strip()[:300].replace("\n", " / "), flush=True)
    finally:
        shutil.rmtree(w)
