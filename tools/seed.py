#!/usr/bin/env python3
"""Maintain /verif/seeded (not read by any check).
 seed.py make SPEC.py   : SPEC defines SEEDS=[dict(id,property,edits=[(file,old,new)],needs,breaks,demo)]; writes and confirms each
 seed.py confirm ID...  : patch applies, builds, 191 tests pass, demo 0 without / nonzero with
 seed.py catch ID...    : run the property's quick check with the patch applied (driver args after --)"""
import sys,os,subprocess as sp,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R='/repo'
def sh(c,**k): return sp.run(c,shell=True,stdout=sp.PIPE,stderr=sp.STDOUT,text=True,**k)
def clean(): assert sh('git -C /repo status --porcelain').stdout.strip()=='' , 'repo dirty'
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++17 -O1 -w -DDFM2_HEADER_ONLY -I "$PWD/include" "$d/demo.cpp" -o "$t/demo" -lpthread || exit 2
cd "$t" && timeout 200 ./demo
'''
def make(spec):
    g={}; exec(open(spec).read(),g); ids=[]
    for s in g['SEEDS']:
        clean(); d=V+'/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
        try:
            for f,o,n in s['edits']:
                p=R+'/include/delfem2/'+f; t=open(p,newline='').read()
                if '\r\n' in t: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
                assert t.count(o)==1,(s['id'],f,t.count(o)); open(p,'w',newline='').write(t.replace(o,n))
            open(d+'/patch.diff','wb').write(sp.run('git -C /repo diff',shell=True,stdout=sp.PIPE).stdout)
            orig=sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
            for f,o,n in s['edits']:
                ot=sp.run(['git','-C','/repo','show',orig+':include/delfem2/'+f],stdout=sp.PIPE).stdout.decode().replace('\r\n','\n')
                if o not in ot: print(s['id'],'NOTE: edited text differs from the original commit')
        finally: sh('git -C /repo checkout -- .')
        open(d+'/demo.cpp','w').write(s['demo']); open(d+'/demo.sh','w').write(s.get('sh',DEMO)); os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        ids.append(s['id'])
    confirm(ids)
def confirm(ids):
    for i in ids:
        clean(); d=V+'/seeded/'+i; r0=sh('cd /repo && bash %s/demo.sh'%d)
        try:
            a=sh('git -C /repo apply %s/patch.diff'%d); 
            if a.returncode: print(i,'APPLY',a.stdout); continue
            r1=sh('cd /repo && bash %s/demo.sh'%d)
            b=sh('bash /opt/vp/build.sh'); t=sh('bash /opt/vp/test.sh /tmp/seedt.json'); j=json.load(open('/tmp/seedt.json')) if os.path.exists('/tmp/seedt.json') else {}
        finally: sh('git -C /repo checkout -- .')
        base=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=base<=set(j.get('passed',[]))
        good=r0.returncode==0 and r1.returncode!=0 and ok and b.returncode==0
        print(i,'OK' if good else 'BAD','demo clean',r0.returncode,'patched',r1.returncode,'build',b.returncode,'tests',ok,'' if good else (r0.stdout[-600:]+r1.stdout[-300:]+str(sorted(base-set(j.get('passed',[])))[:5])),flush=True)
def catch(ids,extra=''):
    for i in ids:
        clean(); d=V+'/seeded/'+i; p=json.load(open(d+'/meta.json'))['property']
        try:
            sh('git -C /repo apply %s/patch.diff'%d); r=sh('cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 tools/verif.py %s %s'%(V,p,extra))
        finally: sh('git -C /repo checkout -- .')
        v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]; print(i,p,'CAUGHT' if r.returncode==1 and v else 'MISSED','rc',r.returncode,v[:1],r.stdout.splitlines()[-1][:200],flush=True)
if __name__=='__main__':
    a=sys.argv[2:]; extra=''
    if '--' in a: k=a.index('--'); extra=' '.join(a[k+1:]); a=a[:k]
    if sys.argv[1]=='make': make(a[0])
    elif sys.argv[1]=='confirm': confirm(a or sorted(os.listdir(V+'/seeded')))
    else: catch(a or sorted(os.listdir(V+'/seeded')),extra)
