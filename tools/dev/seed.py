"""seed.py ID : verify planted bug /verif/seeded/ID against /repo (build, tests, demo clean & patched) and optionally run its check."""
import sys, subprocess, json, os, shutil, tempfile
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
S="/verif/seeded/"
def demo(i):
    t=tempfile.mkdtemp(prefix="demo"); d=t+"/x"; shutil.copytree(S+i,d,ignore=shutil.ignore_patterns("*.diff","*.patch","meta.json"))
    r=sh("timeout 300 bash %s/demo.sh"%d,cwd="/repo"); shutil.rmtree(t); return r
def tests():
    r=sh("bash /opt/vp/test.sh /tmp/w/out.json"); o=json.load(open("/tmp/w/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [x for x in b if x not in o["passed"]]
args=sys.argv[1:]; check="-c" in args; ids=[a for a in args if a[0]!="-"]
assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout
sh("bash /opt/vp/build.sh")
clean={i:demo(i) for i in ids}
for i in ids:
    res=[]
    if clean[i].returncode: res.append("CLEAN DEMO FAILS: "+clean[i].stdout[-800:])
    r=sh("git -C /repo apply %s%s/patch.diff"%(S,i))
    if r.returncode: print(i,"PATCH",r.stdout); continue
    try:
        b=sh("bash /opt/vp/build.sh")
        if b.returncode: res.append("BUILD FAILS "+b.stdout[-1500:])
        else:
            m=tests()
            if m: res.append("TESTS FAIL %s"%m[:3])
            d=demo(i)
            if d.returncode==0: res.append("DEMO DOES NOT FAIL")
            else: res.append("demo rc %d: %s"%(d.returncode,d.stdout[-200:].replace("\n"," | ")))
            if check:
                p=json.load(open(S+i+"/meta.json"))["property"]
                c=sh("python3 run.py %s --tier quick"%p,cwd="/verif",timeout=900)
                res.append("CHECK %s rc=%d %s"%(p,c.returncode,[l for l in c.stdout.splitlines() if "VIOLATION" in l][:1]))
    finally:
        sh("git -C /repo checkout -- .")
    print(i," ;; ".join(res),flush=True)
sh("bash /opt/vp/build.sh")
