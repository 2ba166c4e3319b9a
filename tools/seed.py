#!/usr/bin/env python3
"""Builds seeded/<id>/ from the descriptions in tools/seeds/*.py and confirms each one; -c also runs the check.
usage: seed.py [-c] [-n] ids...   (-n: do not rebuild, only run the check against the stored patch)"""
import sys, os, subprocess, json, glob, time, re
R='/repo'; S='/verif/seeded'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
def clean(): sh('git -C /repo checkout -q -- .')
seeds={}
def seed(id,prop,pkg,edits,demo,needs,breaks): seeds[id]=dict(prop=prop,pkg=pkg,edits=edits,demo=demo,needs=needs,breaks=breaks)
for f in sorted(glob.glob('/verif/tools/seeds/*.py')): exec(open(f).read())
DEMO='''#!/bin/bash
# Runs demo_test.go as a test of package PKG of the repository in the current directory.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 120 go test -count=1 -overlay "$t/overlay.json" -run '^TestSeedDemo$' ./PKG
'''
def main():
    args=sys.argv[1:]
    chk='-c' in args; norb='-n' in args
    ids=[a for a in args if a[0]!='-'] or list(seeds)
    for i in ids:
        s=seeds[i]; d=f'{S}/{i}'
        clean()
        assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
        msg=[]; good=norb
        try:
            if not norb:
                os.makedirs(d,exist_ok=True)
                open(d+'/demo.sh','w').write(DEMO.replace('PKG',s['pkg'])); os.chmod(d+'/demo.sh',0o755)
                open(d+'/demo_test.go','w').write(s['demo'].lstrip())
                json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
                r=sh(f'bash {d}/demo.sh',cwd=R)
                if r.returncode: print(i,'DEMO FAILS ON CLEAN TREE',(r.stdout+r.stderr)[-1500:]); continue
                for f,a,b in s['edits']:
                    t=open(f'{R}/{f}').read()
                    if t.count(a)!=1: print(i,'EDIT MISMATCH',f,t.count(a),repr(a[:60])); raise KeyError(i)
                    open(f'{R}/{f}','w').write(t.replace(a,b))
                sh('gofmt -w '+' '.join({f'{R}/{e[0]}' for e in s['edits']}))
                open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
                r=sh('/verif/tools/stable.sh'); 
                if r.returncode: print(i,'TESTS FAIL',r.stdout[-600:],r.stderr[-300:]); continue
                r=sh(f'bash {d}/demo.sh',cwd=R)
                if r.returncode==0: print(i,'DEMO PASSES WITH PATCH'); continue
                # lines of the original repository?
                base=sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
                clean(); ok=False
                for blk in open(d+'/patch.diff').read().split('diff --git ')[1:]:
                    f=re.match(r'a/(\S+)',blk).group(1)
                    orig=set(sh(f'git -C /repo show {base}:{f}').stdout.splitlines())
                    if any(l[1:] in orig for l in blk.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()): ok=True
                if not ok: print(i,'NO ORIGINAL LINE CHANGED'); continue
                msg.append('confirmed'); good=True
            if chk:
                r=sh(f'git -C /repo apply {d}/patch.diff')
                if r.returncode: print(i,'PATCH DOES NOT APPLY'); continue
                t0=time.time()
                r=sh(f'cd /verif && timeout 890 ./check.sh {s["prop"]} quick')
                v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'native replay' in l]
                msg.append(f'check rc={r.returncode} {time.time()-t0:.0f}s '+('CAUGHT' if r.returncode==1 and any('property='+s['prop'] in x for x in v) else 'MISSED')+' '+' | '.join(v[1:2]))
                if r.returncode!=1: msg.append(r.stdout.splitlines()[0][:200] if r.stdout else r.stderr[-300:])
        except KeyError: continue
        finally:
            clean()
            if not good: sh(f'rm -rf {S}/{i}')
        print(i,s['prop'],*msg,flush=True)
main()
