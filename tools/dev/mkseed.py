"""helper: mk(id, prop, edits, needs, breaks, demo_py) creates /verif/seeded/id"""
import subprocess, os, json, shutil
def mk(id, prop, edits, needs, breaks, demo_py=None, demo_sh=None, extra={}):
    os.chdir("/repo")
    assert not subprocess.run("git status --porcelain --untracked-files=no",shell=True,capture_output=True,text=True).stdout
    try:
        for path, old, new in edits:
            b=open(path,"rb").read().decode("utf-8"); crlf="\r\n" in b
            if crlf: old=old.replace("\n","\r\n"); new=new.replace("\n","\r\n")
            assert b.count(old)==1,(id,path,old,b.count(old))
            open(path,"wb").write(b.replace(old,new).encode("utf-8"))
        d=subprocess.run("git diff",shell=True,capture_output=True).stdout
        assert d
        bl=subprocess.run("git diff -U0",shell=True,capture_output=True,text=True).stdout
    finally:
        subprocess.run("git checkout -- .",shell=True)
    o="/verif/seeded/"+id; os.makedirs(o,exist_ok=True)
    open(o+"/patch.diff","wb").write(d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(o+"/meta.json","w"),indent=1,ensure_ascii=False)
    if demo_py:
        open(o+"/demo.py","w").write(demo_py.lstrip("\n")); shutil.copy("/verif/tools/demo/mk1cd.py",o)
        demo_sh='#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'
    open(o+"/demo.sh","w").write(demo_sh)
    for k,v in extra.items(): open(o+"/"+k,"w").write(v)
