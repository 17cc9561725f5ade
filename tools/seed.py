#!/usr/bin/env python3
# seed.py NAME...: build /verif/seeded/NAME from tools/bugs/NAME.py and confirm it in a scratch copy.
# A bug file sets: prop, edits=[(file, old, new)...], pkg, test (Go test source), needs, breaks, flags="" (extra go test flags)
import sys,os,subprocess,json,shutil,tempfile
R="/tmp/seedrepo"
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main(name):
    ns={"flags":"","tags":""}
    exec(open(f"/verif/tools/bugs/{name}.py").read(),ns)
    shutil.rmtree(R,ignore_errors=True)
    sh(f"git -C /repo worktree prune; cp -a /repo {R}")
    assert not sh(f"git -C {R} status --porcelain").stdout
    orig=set()
    for f,old,new in ns["edits"]:
        p=f"{R}/{f}"; s=open(p).read()
        if s.count(old)!=1: print(name,"EDIT MATCHES",s.count(old),f,old); return False
        open(p,"w").write(s.replace(old,new))
    d=f"/verif/seeded/{name}"
    os.makedirs(d,exist_ok=True)
    open(f"{d}/patch.diff","w").write(sh(f"git -C {R} diff").stdout)
    json.dump({"property":ns["prop"],"needs":ns["needs"],"what_it_breaks":ns["breaks"]},open(f"{d}/meta.json","w"),indent=1)
    open(f"{d}/demo_test.go","w").write(ns["test"].lstrip())
    if ns.get("host"):
        for f in ("glue.go","vst3_c_api.h"): shutil.copy(f"/verif/tools/bugs/host/{f}",d)
    if ns.get("host"): open(f"{d}/demo.sh","w").write('''#!/bin/bash
# Runs demo_test.go inside ./pkg/plugin through an overlay, with a small host (glue.go)
# and a stand-in for the VST3 C header; exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$t/a/b" "$t/include/vst3" && cp "$d/vst3_c_api.h" "$t/include/vst3/"
export CGO_ENABLED=1 CGO_CFLAGS="-w -I$t/a/b -I$t/a"
printf '{"Replace":{"%s/pkg/plugin/zz_seed_demo_test.go":"%s/demo_test.go","%s/pkg/plugin/zz_seed_glue.go":"%s/glue.go"}}' "$PWD" "$d" "$PWD" "$d" > "$t/o.json"
timeout 200 go test -vet=off -overlay "$t/o.json" -count=1 -run 'TestSeedDemo' ./pkg/plugin
''')
    else: open(f"{d}/demo.sh","w").write(f'''#!/bin/bash
# Runs demo_test.go inside ./{ns["pkg"]} through an overlay; exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
printf '{{"Replace":{{"%s/{ns["pkg"]}/zz_seed_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$d" > "$t/o.json"
timeout 200 go test {ns["flags"]} -vet=off -overlay "$t/o.json" -count=1 -run 'TestSeedDemo' ./{ns["pkg"]}
''')
    ok=True
    b=sh(f"cd {R} && . /opt/vp/env.sh; go build ./pkg/dsp/... ./pkg/framework/... ./pkg/midi/...")
    if b.returncode: print(name,"BUILD",b.stderr); ok=False
    t=sh(f"cd {R} && . /opt/vp/env.sh; go test -vet=off -count=1 ./pkg/dsp/... ./pkg/framework/... ./pkg/midi/... 2>&1; go test -tags debug -vet=off -count=1 ./pkg/dsp/debug 2>&1")
    base={"TestMonoToStereo","TestMonoToStereo/Right_ConstantPower","TestDampingFilter","TestFDNFeedbackMatrix","TestFreeverbProcessing","TestFreeverbStereoWidth","TestAudioProcessProfiler","TestAudioProcessProfiler/CPULoad"}
    bad=[l.strip() for l in t.stdout.splitlines() if l.strip().startswith("--- FAIL") and l.split()[2] not in base or "build failed" in l and "/pkg/dsp [" not in l or l.startswith("panic")]
    if bad: print(name,"TESTS",bad); ok=False
    p=sh(f"cd {R} && bash {d}/demo.sh")
    c=sh(f"cd /repo && bash {d}/demo.sh")
    if c.returncode!=0: print(name,"DEMO FAILS CLEAN",c.stdout[-1500:],c.stderr[-800:]); ok=False
    if p.returncode==0: print(name,"DEMO PASSES PATCHED",p.stdout[-500:]); ok=False
    if "build failed" in p.stdout: print(name,"DEMO BUILD",p.stdout,p.stderr); ok=False
    v=tempfile.mkdtemp(); shutil.copy("/verif/known_findings.txt",v)
    binp=os.environ.get("VSA","/tmp/vsa")
    allp="--all" in sys.argv
    r=sh(f"{binp} -repo {R} -verif {v} -prop {ns['prop']}")
    shutil.rmtree(v)
    print(name,"ok" if ok else "NOT OK","CAUGHT" if r.returncode==1 else f"missed({r.returncode})", (r.stdout.strip().splitlines() or [""])[0][:200])
    shutil.rmtree(R)
    return ok
names=[a for a in sys.argv[1:] if not a.startswith("-")]
if not names: names=sorted(f[:-3] for f in os.listdir("/verif/tools/bugs") if f.endswith(".py"))
for n in names: main(n)
