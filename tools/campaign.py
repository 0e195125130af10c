#!/usr/bin/env python3
"""Runs the checks against small source changes (mutants) and records which check notices which.

usage: campaign.py MUTS.jsonl OUT.jsonl [workers] [scale]
MUTS.jsonl comes from tools/mutate. Works on copies under /tmp; no check reads any of this."""
import json, os, subprocess, sys, shutil, threading, queue, random
muts = [json.loads(l) for l in open(sys.argv[1])]
out = sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 2
scale = sys.argv[4] if len(sys.argv) > 4 else "0.25"
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["file"], d["Start"], d["End"], d["new"]))
env = {"PATH": "/opt/veriftools/go1.27.3/bin:/usr/bin:/bin", "HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off",
       "GOSUMDB": "off", "GOWORK": "off", "GOFLAGS": "-mod=mod", "CGO_ENABLED": "0", "VERIF_SCALE": scale, "VERIF_SHRINK": "1s", "VERIF_LIMIT_S": "300"}
ALL = ["C01","C02","C03","C04","C05","C06","C07","C08","B01","B02","B03","B04","B05","G01","S01","S02","S03","K01","K02","K03","K04","E01","E02","E03","R01","R02","R03","I01","N01","U01"]
ORDER = {
 "mkrlwe/basis_extension.go": ["R01","R02","R03","C03","B03"],
 "mkckks/evaluator.go": ["C08","C02","C06","C07","C04","C05","C03","E03","E01","E02","I01"],
 "mkrlwe/keyswitch.go": ["C03","C04","C05","R02","E03","G01","I01","C08"],
 "mkrlwe/keyswitch_hoisted.go": ["E03","R02","C03","I01"],
 "mkrlwe/keygen.go": ["K01","K02","K04","S02","C03","I01","C05"],
 "mkbfv/keyswitch.go": ["B03","B04","E03","B05"],
 "mkbfv/keyswitch_hoisted.go": ["B03","E03","B05"],
 "mkbfv/keygen.go": ["K01","K04","B03","I01"],
 "mkckks/utils.go": ["U01","C06"],
 "mkbfv/evaluator.go": ["B05","B02","B04","B03"],
 "mkrlwe/encryptor.go": ["G01","C01","S02","B01"],
 "cnn/cnn.go": ["N01"],
 "mkbfv/basis_extension.go": ["R03","B03"],
 "mkrlwe/params.go": ["K04","C04","I01"],
 "mkrlwe/keys.go": ["K03","I01"],
 "mkrlwe/decryptor.go": ["G01","S03","S01","C01"],
 "mkbfv/params.go": ["K04","B03","I01"],
 "mkbfv/keys.go": ["K03","B03"],
 "mkrlwe/elements.go": ["K03","G01","E01"],
 "mkrlwe/idset.go": ["K03","I01"],
}
lock = threading.Lock()
q = queue.Queue()
for m in muts:
    if (m["file"], m["Start"], m["End"], m["new"]) not in done:
        q.put(m)
def work(n):
    d = f"/tmp/campaign/{os.getpid()}-{n}"
    os.makedirs(d)
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git"))
    shutil.copytree("/verif/harness", d + "/harness")
    gm = open(d + "/harness/go.mod").read().replace("=> /repo", "=> " + d + "/repo")
    open(d + "/harness/go.mod", "w").write(gm)
    open(d + "/known_findings.txt", "w").write("")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = f"{d}/repo/{m['file']}"
        src = open("/repo/" + m["file"], "rb").read()
        assert src[m["Start"]:m["End"]].decode() == m["old"], m
        open(p, "wb").write(src[:m["Start"]] + m["new"].encode() + src[m["End"]:])
        r = subprocess.run(["go", "build", "-o", d + "/bin", "."], cwd=d + "/harness", env=env, capture_output=True, text=True)
        res = {"by": None, "status": "survived"}
        if r.returncode != 0:
            res["status"] = "nobuild"
        else:
            o = ORDER.get(m["file"], [])
            for c in o + [x for x in ALL if x not in o]:
                t = subprocess.run([d + "/bin", "check", "-id", c, "-tier", "quick", "-seed", "1", "-root", d], cwd=d, env=env, capture_output=True, text=True)
                if t.returncode == 1:
                    res = {"by": c, "status": "killed", "msg": t.stdout[-700:]}; break
                if t.returncode != 0:
                    res.setdefault("odd", []).append([c, t.returncode, (t.stdout + t.stderr)[-500:]])
        open(p, "wb").write(src)
        with lock:
            with open(out, "a") as f: f.write(json.dumps({**m, **res}) + "\n")
    shutil.rmtree(d)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
