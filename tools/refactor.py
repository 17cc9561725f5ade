#!/usr/bin/env python3
# refactor.py [NAME...]: apply each behaviour-preserving edit of tools/refactors/*.py to a scratch copy and run every claimed check; all must stay quiet.
# A file defines: edits=[(file, old, new)...]
import sys,os,subprocess,json,shutil,tempfile
R="/tmp/refrepo"
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
props=[c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
if os.environ.get("PROPS"): props=os.environ["PROPS"].split(",")
names=[a for a in sys.argv[1:] if not a.startswith("-")] or sorted(f[:-3] for f in os.listdir("/verif/tools/refactors") if f.endswith(".py"))
for n in names:
    ns={}; exec(open(f"/verif/tools/refactors/{n}.py").read(),ns)
    shutil.rmtree(R,ignore_errors=True); sh(f"cp -a /repo {R}")
    bad=False
    for f,old,new in ns["edits"]:
        p=f"{R}/{f}"; s=open(p).read()
        if s.count(old)!=1: print(n,"EDIT MATCHES",s.count(old),f,old); bad=True; continue
        open(p,"w").write(s.replace(old,new))
    b=sh(f"cd {R} && . /opt/vp/env.sh; go vet ./pkg/dsp/... ./pkg/framework/... ./pkg/midi/... 2>&1 | grep -v _test.go | grep '^pkg.*: ' | grep -i 'undefined\\|declared\\|imported\\|cannot\\|syntax' ; go build ./pkg/dsp/... ./pkg/framework/... ./pkg/midi/...")
    if b.returncode: print(n,"BUILD",b.stdout,b.stderr); bad=True
    v=tempfile.mkdtemp(); shutil.copy("/verif/known_findings.txt",v)
    ps=[(p,subprocess.Popen([os.environ.get("VSA","/tmp/vsa"),"-repo",R,"-verif",v,"-prop",p],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)) for p in props]
    out=[]
    for p,q in ps:
        o=q.communicate()[0]
        if q.returncode!=0: out.append(p); print("   ",n,p,o.strip()[:600])
    shutil.rmtree(v); shutil.rmtree(R)
    print(n,"BAD EDIT" if bad else ("ALARM "+",".join(out) if out else "quiet"))
