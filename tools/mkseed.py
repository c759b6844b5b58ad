#!/usr/bin/env python3
"""mkseed.py: helper to store a planted bug. Reads a spec file:
 id, property, needs, breaks, pkg, edits [(file, old, new)], demo (go test source)."""
import json, os, shutil, subprocess, sys, tempfile
V="/verif"
def store(id, property, needs, breaks, pkg, edits, demo):
    d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.check_call(["git","clone","-q","/repo",t+"/r"])
        for f,a,b in edits:
            p=t+"/r/"+f; s=open(p).read(); assert s.count(a)==1,(id,s.count(a),a)
            open(p,"w").write(s.replace(a,b))
        subprocess.run(["gofmt","-l","."],cwd=t+"/r")
        open(d+"/patch.diff","w").write(subprocess.check_output(["git","diff"],cwd=t+"/r",text=True))
    finally: shutil.rmtree(t)
    open(d+"/demo_test.go","w").write(demo)
    open(d+"/pkg","w").write(pkg+"\n")
    shutil.copy(V+"/tools/demo.sh.txt",d+"/demo.sh"); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":property,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
if __name__=="__main__":
    exec(open(sys.argv[1]).read())
