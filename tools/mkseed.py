import json, os, subprocess, shutil, stat
C="/tmp/seedcopy"; S="/verif/seeded"
HEAD_TXT="import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n\n"
def seed(id, prop, edits, needs, what, demo):
    d=os.path.join(S,id); os.makedirs(d,exist_ok=True)
    subprocess.run(["git","-C",C,"checkout","-q","--","."],check=True)
    for f,old,new in edits:
        p=os.path.join(C,f); s=open(p,encoding="latin-1").read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,"w",encoding="latin-1").write(s.replace(old,new))
    out=subprocess.run(["git","-C",C,"diff"],stdout=subprocess.PIPE).stdout
    open(d+"/patch.diff","wb").write(out)
    subprocess.run(["git","-C",C,"checkout","-q","--","."],check=True)
    shutil.copy("/verif/tools/demolib.py",d+"/demolib.py")
    open(d+"/demo.py","w").write(HEAD_TXT+demo.strip()+"\n")
    open(d+"/demo.sh","w").write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+"/meta.json","w"),indent=1)
