import os, subprocess, json, sys
BASE="b86abc9"
def orig(path):
    try: return subprocess.check_output(["git","-C","/repo","show",BASE+":"+path],text=True)
    except Exception: return ""
HEAD='''#!/bin/bash
# exit 0: as numpy; nonzero: the property is broken
cd "$(dirname "$0")" || exit 2
PYTHONPATH="$OLDPWD/src" /opt/vp/venv/bin/python -s demo.py
'''
def bug(id, prop, edits, needs, breaks, demo):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    w="/tmp/mkb"; subprocess.run("rm -rf /tmp/mkb; git clone -q /repo /tmp/mkb",shell=True,check=True)
    for path,old,new in edits:
        p=w+"/"+path; s=open(p,newline="").read()
        if "\r\n" in s: old=old.replace("\n","\r\n"); new=new.replace("\n","\r\n")
        if isinstance(old,tuple):
            i=s.index(old[0]); j=s.index(old[1],i); open(p,"w",newline="").write(s[:j]+new+s[j+len(old[1]):]); continue
        assert s.count(old)==1,(id,path,s.count(old),old)
        open(p,"w",newline="").write(s.replace(old,new))
    diff=subprocess.check_output(["git","-C",w,"diff"],text=True)
    open(d+"/patch.diff","w").write(diff)
    removed=[l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    o="\n".join(orig(p) for p,_,_ in edits)
    print(id, prop, "removed lines original:", [l.strip() in [x.strip() for x in o.splitlines()] for l in removed])
    open(d+"/demo.sh","w").write(HEAD); open(d+"/demo.py","w").write(demo.strip()+"\n")
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    subprocess.run("rm -rf /tmp/mkb",shell=True)
OB="src/atop/ops_binary.cpp"; OC="src/atop/ops_compare.cpp"; PN="src/pnumpy/_pnumpy.cpp"; SO="src/atop/sort.cpp"; GI="src/pnumpy/getitem.cpp"; FI="src/atop/fill.cpp"; RE="src/atop/recarray.cpp"
TH="src/atop/threads.h"; OU="src/atop/ops_unary.cpp"; OT="src/atop/ops_trig.cpp"; OL="src/atop/ops_log.cpp"; SPY="src/pnumpy/sort.py"
exec(open("/tmp/bugs_list.py").read())
