#!/usr/bin/env python3
"""trybug.py ID... : confirm planted bugs in scratch copies (applies, builds,
passes the tests, demo separates) and run the property's check against each.
Development aid; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
def sh(cmd, **k):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout
args = [a for a in sys.argv[1:] if not a.startswith("-")]
nocheck = "-n" in sys.argv
for bid in args:
    d = f"{V}/seeded/{bid}"
    t = tempfile.mkdtemp(prefix="bug-")
    try:
        r = t + "/repo"
        sh(f"cp -a /repo {r}")
        res = []
        rc, o = sh(f"bash {d}/demo.sh", cwd=r)
        res.append("demo-clean=%d" % rc)
        if rc: print(o)
        rc, o = sh(f"git apply {d}/patch.diff", cwd=r)
        if rc: print(bid, "does not apply", o); continue
        if not nocheck or "-t" in sys.argv:
            rc, o = sh("go1.25 build ./... && go1.25 test -count=1 ./...", cwd=r)
            res.append("tests=%d" % rc)
            if rc: print(o[-1500:])
        rc, o = sh(f"bash {d}/demo.sh", cwd=r)
        res.append("demo-bug=%d" % rc)
        meta = json.load(open(d + "/meta.json"))
        if not nocheck:
            rc, o = sh(f"python3 {V}/tools/check.py {meta['property']} quick", cwd=V, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1"))
            res.append("check=%d" % rc)
            print(bid, meta["property"], *res)
            print("   " + "\n   ".join(o.strip().splitlines()[-6:]))
        else:
            print(bid, meta["property"], *res)
    finally:
        shutil.rmtree(t, ignore_errors=True)
