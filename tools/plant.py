#!/usr/bin/env python3
"""plant.py SPEC.py : SPEC defines id, property, needs, breaks, edits=[(file,old,new)], test (Go test body text, package asn1go, func TestDemo) or demo (bash text) + files {name:text}"""
import sys, subprocess, os, json, shutil, runpy
import tempfile
s = runpy.run_path(sys.argv[1])
ID = s['id']
W = f'/tmp/plant/{ID}'
shutil.rmtree(W, ignore_errors=True)
os.makedirs('/tmp/plant', exist_ok=True)
subprocess.check_call(['cp', '-a', '/repo', W])
subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
for f, old, new in s['edits']:
    p = f'{W}/{f}'
    t = open(p).read()
    assert t.count(old) == 1, (f, old, t.count(old))
    open(p,'w').write(t.replace(old, new))
if any(f=='asn1.y' for f,_,_ in s['edits']):
    subprocess.check_call(['/opt/vp/bin/goyacc','asn1.y'],cwd=W,stdout=subprocess.DEVNULL)
diff = subprocess.check_output(['git','-C',W,'diff','--','.',':!asn1.y'],text=True)
out = f'/tmp/planted/{ID}'
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
open(out+'/patch.diff','w').write(diff)
json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(out+'/meta.json','w'), indent=1)
if 'test' in s:
    open(out+'/demo_test.go','w').write(s['test'].lstrip())
    pkg = s.get('pkg','.')
    open(out+'/demo.sh','w').write(f'''#!/bin/bash
# runs demo_test.go as a test of the repository's package, from the outside
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp go.mod "$T/repo.mod"; cp go.sum "$T/repo.sum"
echo "{{\\"Replace\\": {{\\"$PWD/{pkg}/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}}}" > "$T/o.json"
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local
go test -mod=mod -modfile="$T/repo.mod" -overlay "$T/o.json" {s.get('flags','')} -vet=off -count=1 -run '^TestDemo$' ./{pkg}
'''.replace('/./','/'))
else:
    open(out+'/demo.sh','w').write(s['demo'].lstrip())
for n,t in s.get('files',{}).items():
    open(out+'/'+n,'w').write(t)
os.chmod(out+'/demo.sh',0o755)
def demo(dst):
    T=tempfile.mkdtemp(); 
    for n in os.listdir(out):
        if not n.endswith('.diff') and n!='meta.json': shutil.copy(out+'/'+n,T)
    r=subprocess.run(['bash',T+'/demo.sh'],cwd=dst,capture_output=True,text=True)
    shutil.rmtree(T)
    return r
assert 1 or subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout=='' , 'repo dirty'
r=demo('/repo')
print('unchanged demo rc',r.returncode, '' if r.returncode==0 else r.stdout[-1500:]+r.stderr[-1500:])
env=dict(os.environ,VERIF_REPO=W)
t=subprocess.run(['bash','-c',f'cd {W}; find . -name "*_generated.go" -delete; go generate ./... && go test -vet=off -count=1 ./... 2>&1 | tail -15'],capture_output=True,text=True); print('tests:',t.stdout.strip()[-600:], t.stderr[-500:])
r=demo(W); print('patched demo rc',r.returncode, (r.stdout+r.stderr)[-600:] if r.returncode else 'NOT DETECTED')
for c in s.get('checks',[s['property']])+sys.argv[2:]:
    r=subprocess.run(['/verif/check.sh',c,'quick'],capture_output=True,text=True,env=env); print('CHECK',ID,c,'rc',r.returncode, r.stdout[-300:] if r.returncode==1 else r.stdout[-300:]+r.stderr[-800:])
shutil.rmtree(W)
