#!/usr/bin/env python3
"""Driver: encode /repo's current source, run the symbolic engine, replay, write evidence.
usage: verif.py Cxx [-k]           (VERIF_TIER=quick|thorough, VERIF_SEED)
"""
import sys, os, subprocess, json, glob, time, shutil, fcntl, re, tempfile
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo'); B=V+'/build'
CLF='-O1 -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-math-errno -ffp-contract=off -fno-builtin-printf -w -g0'.split()
INC=['-I'+V+'/harness','-I'+REPO+'/include']
SHIM=['-I'+V+'/engine/shim']
def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def newer(a,srcs):
    if not os.path.exists(a): return False
    t=os.path.getmtime(a); return all(os.path.getmtime(s)<=t for s in srcs)
def ensure_engine():
    os.makedirs(B,exist_ok=True)
    with open(B+'/.lock','w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        srcs=glob.glob(V+'/engine/*.h')+[V+'/engine/symx.cpp']
        if not newer(B+'/symx',srcs):
            r=sh(['bash',V+'/tools/build_engine.sh'])
            if r.returncode: print(r.stdout); sys.exit(2)
        if not newer(B+'/support.bc',[V+'/engine/support.cpp',V+'/engine/support_c.c']):
            t=B+'/sup%d'%os.getpid()
            for c in (['clang-18']+CLF+['-fno-builtin','-c','-emit-llvm',V+'/engine/support_c.c','-o',t+'c.bc'],
                      ['clang++-18','-std=c++17']+CLF+['-fno-builtin','-c','-emit-llvm',V+'/engine/support.cpp','-o',t+'p.bc'],
                      ['llvm-link-18',t+'c.bc',t+'p.bc','-o',t+'.bc']):
                r=sh(c)
                if r.returncode: print(r.stdout); sys.exit(2)
            os.rename(t+'.bc',B+'/support.bc')
def defs(tier): return ['-DSX_TIER=%d'%(1 if tier=='thorough' else 0)]
def extra_flags(src):
    f=[]
    for l in open(src):
        m=re.match(r'//\s*SXFLAGS:\s*(.*)',l)
        if m: f+=m.group(1).replace('$V',V).replace('$REPO',REPO).split()
    return f
def to_bc(src,out,tier):
    r=sh(['clang++-18','-std=c++17']+CLF+['-include','cstdint']+SHIM+INC+defs(tier)+extra_flags(src)+['-c','-emit-llvm',src,'-o',out+'.h.bc'])
    if r.returncode: return r.stdout
    r=sh(['llvm-link-18','--only-needed',out+'.h.bc',B+'/support.bc','-o',out])
    if r.returncode: return r.stdout
    return None
def to_native(src,out,tier):
    r=sh(['g++','-std=c++17','-O1','-g','-w','-fsanitize=address,bounds','-fno-sanitize-recover=all','-D_GLIBCXX_ASSERTIONS','-DSX_NATIVE','-include','cstdint']+INC+defs(tier)+[x for x in extra_flags(src)]+[src,'-o',out,'-lpthread'])
    return None if r.returncode==0 else r.stdout
def run_native(exe,entry,inp,work):
    fd,p=tempfile.mkstemp(dir=work); os.write(fd,inp.encode('latin1','replace')); os.close(fd)
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66')
    try: r=subprocess.run([exe,entry,p],stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=20,env=env,cwd=work); rc=r.returncode; o=r.stdout.decode('latin1'); e=r.stderr.decode('latin1')
    except subprocess.TimeoutExpired as t: rc=-999; o=(t.stdout or b'').decode('latin1'); e='timeout'
    os.unlink(p); return rc,o,e
def known():
    f=V+'/known_findings.json'
    return json.load(open(f)) if os.path.exists(f) else []
def main():
    if sys.argv[1]=='--setup': ensure_engine(); return
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick'); 
    if '--thorough' in sys.argv: tier='thorough'
    seed=int(os.environ.get('VERIF_SEED','1') or 1); t0=time.time(); verbose='-v' in sys.argv
    ensure_engine()
    cfg=json.load(open(V+'/tools/config.json')).get(pid,{}) if os.path.exists(V+'/tools/config.json') else {}
    budget=float(os.environ.get('VERIF_BUDGET',0)) or cfg.get('budget',{}).get(tier, 420 if tier=='quick' else 2400)
    srcs=sorted(glob.glob(V+'/harness/%s*.cpp'%pid))
    if '-f' in sys.argv: srcs=[s for s in srcs if sys.argv[sys.argv.index('-f')+1] in s]
    work=tempfile.mkdtemp(prefix='%s.'%pid,dir=B); j=str(os.cpu_count() or 8)
    names={s:os.path.splitext(os.path.basename(s))[0] for s in srcs}
    with ThreadPoolExecutor(8) as ex: errs=dict(zip(srcs,ex.map(lambda s:to_bc(s,work+'/'+names[s]+'.bc',tier),srcs)))
    ok=[s for s in srcs if errs[s] is None]; notes=[]
    for s in srcs:
        if errs[s]: print('NOTE: harness %s does not compile against the current tree'%names[s]); print(errs[s][:2000]); notes.append('harness %s did not compile'%names[s])
    if not ok: print('ERROR: no harness could be encoded'); shutil.rmtree(work); sys.exit(2)
    # native executables in the background (needed for validation and replay)
    ex=ThreadPoolExecutor(4); nat={s:ex.submit(to_native,s,work+'/'+names[s]+'.exe',tier) for s in ok}
    ents={}; solver={}; funcs=set(); viols=[]; wits=[]; crashed=0; tend=t0+budget
    for i,s in enumerate(ok):
        left=max(20,tend-time.time()); share=left if i==len(ok)-1 else max(20,left*cfg.get('share',0.7))
        od=work+'/'+names[s]+'.out'; os.makedirs(od)
        cmd=[B+'/symx',work+'/'+names[s]+'.bc',od,'-j',j,'-t',str(share)]
        if '-e' in sys.argv: cmd+=['-e',sys.argv[sys.argv.index('-e')+1]]
        r=sh(cmd)
        if r.returncode==2 and 'no entries' in r.stdout: continue
        if r.stdout and verbose: print(r.stdout[-2000:])
        if not os.path.exists(od+'/main.json'): notes.append('engine failed on '+names[s]+': '+r.stdout[-300:]); crashed+=1; print('ENGINE FAILED',r.returncode,r.stdout[-500:]); continue
        mj=json.load(open(od+'/main.json')); crashed+=mj['crashed']
        for f in glob.glob(od+'/w*.jsonl'):
            for l in open(f):
                try: d=json.loads(l)
                except Exception: continue
                if d['t']=='stats':
                    e=ents.setdefault(d['entry'],dict(src=s,skipped=mj['skipped'].get(d['entry'],0)))
                    for k,v in d.items():
                        if isinstance(v,dict):
                            x=e.setdefault(k,{})
                            for kk,vv in v.items(): x[kk]=x.get(kk,0)+vv
                        elif isinstance(v,(int,float)): e[k]=e.get(k,0)+v
                elif d['t']=='solver':
                    for k,v in d.items():
                        if k=='tmax': solver[k]=max(solver.get(k,0),v)
                        elif k!='t': solver[k]=solver.get(k,0)+v
                elif d['t']=='funcs': funcs|=set(d['f'])
                elif d['t']=='violation': d['src']=s; viols.append(d)
                elif d['t']=='witness': d['src']=s; wits.append(d)
    # ---- validation of the encoding on complete paths
    natok={}
    for s in ok:
        er=nat[s].result(); natok[s]=er is None
        if er: notes.append('native build of %s failed'%names[s]); print('NOTE native build failed',names[s],er[:1500])
    def val(w):
        if not natok[w['src']]: return None
        rc,o,e=run_native(work+'/'+names[w['src']]+'.exe',w['entry'],w['input'],work)
        no=[l[4:] for l in o.splitlines() if l.startswith('OBS ')]; eo=w['obs'].splitlines(); bad=None
        if rc!=0: bad='native exit %d: %s'%(rc,(o+e)[-400:])
        else:
            if len(no)!=len(eo): bad='observation count %d vs %d'%(len(no),len(eo))
            for a,b in zip(no,eo):
                (an,av),(bn,bv)=a.rsplit(' ',1),b.rsplit(' ',1)
                if bv=='nan': continue
                x,y=float(av),float(bv)
                if an!=bn or not abs(x-y)<=1e-6*(1+abs(x)+abs(y)): bad='observed %s native %s engine %s'%(an,av,bv); break
        return bad
    validated=0; mism=[]
    seen={}; sel=[]
    for w in wits:
        seen[w['entry']]=seen.get(w['entry'],0)+1
        if seen[w['entry']]<=12: sel.append(w)
    with ThreadPoolExecutor(8) as ex2:
        for w,bad in zip(sel,ex2.map(val,sel)):
            if bad is None: validated+=1
            else: mism.append(dict(entry=w['entry'],why=bad,input=w['input']))
    # ---- replay of counterexamples
    kn=[k for k in known() if k.get('property')==pid and not k.get('fixed')]; confirmed=[]; unconf=[]; khit={}; tried={}
    for v in viols:
        key=(v['entry'],v['label'])
        if tried.get(key,0)>=4 or any((c['entry'],c['label'])==key for c in confirmed): continue
        tried[key]=tried.get(key,0)+1
        if not natok[v['src']]: unconf.append(v); continue
        rc,o,e=run_native(work+'/'+names[v['src']]+'.exe',v['entry'],v['input'],work)
        if rc in (0,77): v['native']='rc %d %s'%(rc,o[-300:]); unconf.append(v); continue
        v['native']='rc %d %s %s'%(rc,o[-600:],e[-1500:])
        m=[k for k in kn if k['entry']==v['entry'] and re.search(k.get('label','.*'),v['label'])]
        if m: khit[m[0]['what']]=m[0]; continue
        confirmed.append(v)
    rd=V+'/evidence/replay'; os.makedirs(rd,exist_ok=True)
    for f in glob.glob(rd+'/%s-*.txt'%pid): os.unlink(f)
    out=[]
    for i,v in enumerate(confirmed):
        p='%s/%s-%d.txt'%(rd,pid,i)
        with open(p,'w') as f: f.write('# property %s harness %s entry %s\n# failed: %s\n# engine: %s\n# rerun: g++ -DSX_NATIVE ... %s ; ./exe %s <the assignment below>\n# native: %s\n%s'%(pid,names[v['src']],v['entry'],v['label'],v['extra'],v['src'],v['entry'],v['native'].replace('\n','\n# '),v['input']))
        out.append((v,p))
    # ---- summary
    tot=lambda k:sum(e.get(k,0) for e in ents.values())
    incomplete=[n for n,e in ents.items() if e.get('skipped') or e.get('unk_branch') or e.get('limit') or e.get('unsup')]
    vac=[n for n,e in ents.items() if e.get('paths',0)==0]
    own=sorted(f for f in funcs if 'delfem2' in f and not f.startswith('h_'))
    try: dem=sh(['llvm-cxxfilt-18']+own[:400]).stdout.splitlines() if own else []
    except Exception: dem=own
    dem=[re.sub(r'std::(__cxx11::)?','',x)[:160] for x in dem]
    for n in sorted(ents):
        e=ents[n]; print('%-34s paths %d obl %d (const %d solver %d poly %d) unk %d/%d unsup %d limit %d skipped %d viol %d  %.1fs %s'%(n,e['paths'],e['obl'],e['obl_const'],e['obl_solver'],e['obl_poly'],e['unk_branch'],e['unk_check'],e['unsup'],e['limit'],e['skipped'],e['viol'],e['wall'],(str(list(e['why'].items())[:3]) if e['why'] else '')+('' if not e['unk_labels'] else ' UNK:'+str(list(e['unk_labels'].items())[:6])) if (e['why'] or e['unk_labels']) else ''))
    for m in mism[:8]: print('MISMATCH',m['entry'],m['why'][:600], m['input'][:400].replace('\n','; ') if verbose else '')
    for v in unconf[:8]: print('UNCONFIRMED',v['entry'],v['label'],v.get('native','')[:200], (v['input'].replace('\n','; ')[:600]+' '+v['extra']) if verbose else '')
    if crashed: print('NOTE: %d engine workers crashed'%crashed)
    ev=dict(property=pid,tier=tier,seed=seed,level='model_checking',
      coverage=dict(states=tot('paths')+tot('infeasible')+tot('unsup')+tot('limit'),transitions=tot('decisions')+tot('paths'),traces_validated_against_impl=validated,
        samples=[dict(entry=w['entry'],input=w['input'][:800],observed=w['obs'][:400]) for w in wits[:6]],
        paths_completed=tot('paths'),obligations=tot('obl'),obligations_discharged_by_constant_folding=tot('obl_const'),obligations_discharged_by_solver=tot('obl_solver'),obligations_discharged_by_normal_form=tot('obl_poly'),obligations_undecided=tot('unk_check'),
        branches_undecided=tot('unk_branch'),paths_outside_encoding=tot('unsup'),paths_cut_by_step_limit=tot('limit'),subtrees_unexplored_at_time_limit=tot('skipped'),
        solver_queries=solver.get('queries',0),solver_unsat=solver.get('unsat',0),solver_sat=solver.get('sat',0),solver_unknown=solver.get('unk',0),solver_seconds=round(solver.get('time',0),2),solver_bitvector_queries=solver.get('bv',0),solver_nra_queries=solver.get('nra',0),
        instructions_executed_symbolically=tot('steps'),functions_encoded=dem,bounds=cfg.get('bounds',{}).get(tier,cfg.get('bounds_text','see DESIGN.md')),
        entries={n:dict(paths=e['paths'],obligations=e['obl'],by_solver=e['obl_solver'],by_constant=e['obl_const'],by_normal_form=e['obl_poly'],undecided=e['unk_check'],labels=e['labels'],incomplete=(n in incomplete),why=e['why'],undecided_labels=e['unk_labels']) for n,e in ents.items()},
        entries_fully_explored=len(ents)-len(incomplete),entries_incomplete=incomplete,entries_without_a_complete_path=vac,validation_mismatches=mism[:10],unconfirmed_counterexamples=[dict(entry=v['entry'],label=v['label'],native=v.get('native','')[:200]) for v in unconf[:10]],notes=notes,engine_workers_crashed=crashed,known_findings_seen=sorted(khit)),
      assumptions=cfg.get('assumptions',[])+["doubles are exact reals in the encoding (integer-grid inputs make + - * exact in IEEE too)","symbolic divisors are assumed non-zero, symbolic square-root/log arguments in domain, unless a harness says otherwise"],
      wall_s=round(time.time()-t0,2),violations=len(out))
    os.makedirs(V+'/evidence',exist_ok=True); json.dump(ev,open(V+'/evidence/%s.json'%pid,'w'),indent=1)
    for w,k in khit.items(): print('KNOWN-FINDING: property=%s %s'%(pid,w))
    print('%s: %d entries, %d paths, %d obligations, %d undecided, %d validated, %d mismatches, solver %.1fs, wall %.1fs'%(pid,len(ents),tot('paths'),tot('obl'),tot('unk_check'),validated,len(mism),solver.get('time',0),time.time()-t0))
    if '-k' not in sys.argv: shutil.rmtree(work)
    for v,p in out: print('VIOLATION property=%s replay=%s'%(pid,p)); print('  entry %s: %s | %s'%(v['entry'],v['label'],v['native'].replace('\n',' ')[:300]))
    if vac and not out: print('NOTE: entries without any complete path: %s'%vac)
    sys.exit(1 if out else 0)
main()
