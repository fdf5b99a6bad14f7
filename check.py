#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--unit NAME]: decide one property by symbolic execution of /repo's current sources.

For every unit of the property (harness/units.py): compile /repo's sources and the harness to LLVM IR, link, run wgsym,
replay every counterexample natively (ASan) and report only what reproduces.  Exit 0 / exit 1 with VIOLATION lines."""
import sys,os,re,json,time,subprocess,shutil,glob,hashlib,concurrent.futures as cf
ROOT=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('WS_REPO','/repo'); H=ROOT+'/harness'; B=ROOT+'/build'
sys.path.insert(0,H)
import units as U
NCPU=os.cpu_count() or 8
CF=['-std=gnu11','-DWG_NO_ERRPRINT','-g','-w','-fno-strict-aliasing','-ffp-contract=off','-D_FORTIFY_SOURCE=0','-Wno-int-conversion','-Wno-implicit-function-declaration','-Wno-incompatible-function-pointer-types','-Wno-implicit-int','-Wno-return-type']
BC=CF+['-O0','-Xclang','-disable-O0-optnone','-fno-builtin','-fno-stack-protector','-emit-llvm','-D__NO_CTYPE']
NAT=CF+['-O1','-fsanitize=address','-fno-omit-frame-pointer']
def run(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
class BuildError(Exception): pass
def cc(src,out,flags):
    r=run(['clang-18']+flags+['-c',src,'-o',out])
    if r.returncode: raise BuildError('compiling %s:\n%s'%(src,r.stdout[-3000:]))
    return out
class Builder:
    def __init__(s,work): s.work=work; s.cache={}; s.pool=cf.ThreadPoolExecutor(NCPU)
    def inc(s,u):
        conf=u.get('conf','main')
        return ['-I',H+'/conf/%s/Db'%conf,'-I',H+'/conf/%s'%conf,'-I',H+'/conf/inc','-I',REPO+'/Db','-I',REPO+'/Reasoner','-I',REPO+'/Server','-I',H,'-I',REPO]
    def objs(s,u,native):
        jobs=[]; conf=u.get('conf','main'); defs=u.get('defs',[])
        base=(NAT if native else BC)
        for f in u['srcs']:
            tsan=f in u.get('tsan',[])
            fl=base+s.inc(u)+['-include',H+'/ws_env.h']+U.SRC_DEFS.get(f,[])+u.get('srcdefs',[])
            if tsan: fl=[x for x in fl if x not in('-fsanitize=address','-O1')]+['-O0','-Xclang','-disable-O0-optnone','-fno-builtin','-fsanitize=thread'] # same instrumentation points in both builds
            jobs.append((REPO+'/'+f,fl))
        # harness
        jobs.append((H+'/'+u['harness'],base+s.inc(u)+['-include',H+'/ws_env.h']+defs))
        jobs.append((H+'/env.c',base+['-I',H]))
        jobs.append((H+('/native.c' if native else '/libc.c'),base+['-I',H]))
        fs=[]
        for src,fl in jobs:
            key=(src,tuple(fl))
            if key not in s.cache:
                o=s.work+'/'+hashlib.sha1(repr(key).encode()).hexdigest()[:16]+('.o' if native else '.bc')
                s.cache[key]=s.pool.submit(cc,src,o,fl)
            fs.append(s.cache[key])
        return [f.result() for f in fs]
    def bc(s,u):
        o=s.work+'/'+u['name']+'.bc'; fs=s.objs(u,False)
        r=run(['llvm-link-18']+fs+['-o',o+'.l'])
        if r.returncode: raise BuildError('llvm-link: '+r.stdout[-2000:])
        r=run(['opt-18','-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,adce)','-internalize-public-api-list=ws_main',o+'.l','-o',o])
        if r.returncode: raise BuildError('opt: '+r.stdout[-2000:])
        return o
    def native(s,u):
        o=s.work+'/'+u['name']+'.exe'
        if os.path.exists(o): return o
        fs=s.objs(u,True)
        r=run(['clang-18','-fsanitize=address','-o',o]+fs+['-lm','-lpthread'])
        if r.returncode: raise BuildError('native link: '+r.stdout[-2000:])
        return o
ASAN='detect_leaks=0:exitcode=76:abort_on_error=0:max_malloc_fill_size=1000000:malloc_fill_byte=165:detect_stack_use_after_return=0:allocator_may_return_null=1'
def replay(exe,inp,params,cwd):
    env=dict(os.environ,ASAN_OPTIONS=ASAN,WS_PARAMS=','.join('%s=%d'%kv for kv in params.items()))
    try: r=run([exe,inp],env=env,cwd=cwd,timeout=60)
    except subprocess.TimeoutExpired: return 'timeout',''
    return r.returncode,r.stdout
def main():
    a=sys.argv[1:]; prop=a[0]; tier=os.environ.get('VERIF_TIER','quick'); only=None; keep=False
    if '--tier' in a: tier=a[a.index('--tier')+1]
    if '--unit' in a: only=a[a.index('--unit')+1]
    if '--keep' in a: keep=True
    t0=time.time(); seed=int(os.environ.get('VERIF_SEED','1'))
    if not os.path.exists(B+'/wgsym'):
        r=run(['make','-C',ROOT+'/engine','-j4'])
        if r.returncode: print(r.stdout[-3000:]); sys.exit(2)
    work='%s/run-%s-%d'%(B,prop,os.getpid()); shutil.rmtree(work,ignore_errors=True); os.makedirs(work)
    rdir=ROOT+'/replay/'+prop; shutil.rmtree(rdir,ignore_errors=True); os.makedirs(rdir,exist_ok=True); os.makedirs(ROOT+'/evidence',exist_ok=True)
    known=[]
    kf=ROOT+'/known-findings.json'
    if os.path.exists(kf): known=[k for k in json.load(open(kf)) if k['property']==prop and k.get('status')=='known']
    us=[u for u in U.UNITS if u['prop']==prop and (only is None or u['name']==only) and (tier=='thorough' or not u.get('thorough_only'))]
    b=Builder(work); viol=[]; knownhit={}; unconf=[]; res=[]; err=None
    for u in us: b.pool.submit(lambda u=u:None)
    budget=U.BUDGET[tier]
    try:
        for u in us:
            bc=b.bc(u); out=work+'/'+u['name']+'.out'; os.makedirs(out)
            params=dict(u.get('params',{}))
            if tier=='thorough': params.update(u.get('tparams',{}))
            tl=u.get('time',budget['unit']) if tier=='quick' else u.get('ttime',budget['unit'])
            left=budget['total']-(time.time()-t0)
            tl=max(5,min(tl,left-20))
            cmd=[B+'/wgsym',bc,'-o',out,'-t',str(tl),'-j',str(NCPU),'-q',str(u.get('qms',10000)),'-i',str(u.get('maxinstr',400000000))]
            for k,v in params.items(): cmd+=['-a','%s=%d'%(k,v)]
            r=run(cmd)
            if not os.path.exists(out+'/stats.json'): raise BuildError('wgsym failed on %s: %s'%(u['name'],r.stdout[-2000:]))
            st=json.load(open(out+'/stats.json')); st['unit']=u['name']; st['bounds']=u.get('bounds',''); st['params']=params
            if only or os.environ.get('WS_VERBOSE'): print(u['name'],r.stdout.strip(),st['reach'])
            labels=set(re.findall(r'ws_reach\("([^"]+)"\)',open(H+'/'+u['harness']).read()))
            want=set(u.get('reach',[])); st['not_reached']=sorted(want-set(st['reach']))
            st['traces']=0; st['mismatch']=[]; st['samples_text']=[]
            # counterexamples
            for f in sorted(glob.glob(out+'/viol*.in')):
                head=open(f).read(); kind=re.search(r'# kind (.*)',head).group(1); msg=re.search(r'# msg (.*)',head).group(1); at=re.search(r'# at (.*)',head).group(1)
                if kind=='extern' or kind=='engine': st.setdefault('not_modelled',[]).append(msg+' at '+at); continue
                exe=b.native(u); rc,o=replay(exe,f,params,work)
                ok=(rc==77 or rc==76 or rc=='timeout' and kind=='stack' or (isinstance(rc,int) and rc<0))
                what='%s: %s (%s)'%(u['name'],msg,at.split(' < ')[0])
                m=re.search(r'WS-ASSERT (.*)',o)
                text=(m.group(1) if m else (re.search(r'ERROR: AddressSanitizer: .*',o).group(0) if 'AddressSanitizer' in o else msg))
                if ok:
                    k=[x for x in known if x['unit']==u['name'] and re.search(x['match'],text+' '+msg+' '+at)]
                    if k: knownhit[k[0]['id']]=k[0]; continue
                    dst='%s/%s-%d.txt'%(rdir,u['name'],len(viol))
                    with open(dst,'w') as g: g.write('# property %s unit %s\n# params %s\n# native replay: exit %s\n# %s\n'%(prop,u['name'],' '.join('%s=%d'%x for x in params.items()),rc,text)); g.write(head); g.write('\n# ---- replay output ----\n'+''.join('# '+l+'\n' for l in o.splitlines()[:60])); g.write('# rerun: python3 %s/replay.py %s\n'%(ROOT,dst))
                    viol.append((what,dst,text))
                else: unconf.append(what+' [native replay: %s]'%rc)
            # agreement of engine and real code on sample paths
            sm=sorted(glob.glob(out+'/sample*.in'),key=lambda f:int(re.search(r'sample(\d+)',f).group(1)))
            pick=sm[:1]+sm[-2:] if len(sm)>3 else sm
            if pick and not viol:
                exe=b.native(u)
                for f in pick:
                    rc,o=replay(exe,f,params,work)
                    if rc==0: st['traces']+=1
                    else: st['mismatch'].append({'sample':open(f).read()[:400],'exit':rc,'out':o[-300:]})
            for f in pick: st['samples_text'].append({'unit':u['name'],'inputs':' '.join(open(f).read().split('\n'))[:500]})
            res.append(st)
            if viol and tier=='quick': break
            if budget['total']-(time.time()-t0)<25: break
    except BuildError as e: err=str(e)
    fns=sorted(set(f for st in res for f in st['functions'] if not f.startswith('ws_')))
    tot=lambda k:sum(st.get(k,0) for st in res)
    ev={'property':prop,'tier':tier,'seed':seed,'level':'model_checking','violations':len(viol),'wall_s':round(time.time()-t0,2),
     'assumptions':U.ASSUME.get(prop,[])+U.ASSUME['*'],
     'coverage':{'states':int(tot('paths')),'transitions':int(tot('instructions')),'traces_validated_against_impl':int(tot('traces')),
       'samples':[x for st in res for x in st['samples_text']][:8],
       'explanation':'states = symbolic paths explored to their end; transitions = IR instructions executed symbolically; exhaustive per unit means every path within the bounds was explored and every query answered',
       'exhaustive':bool(res) and len(res)==len(us) and all(st['exhausted'] for st in res),
       'queries_discharged':int(tot('queries')),'queries_unsat':int(tot('unsat')),'queries_sat':int(tot('sat')),'queries_unknown':int(tot('unknown')),'solver_s':round(tot('solver_s'),2),'assertions_checked':int(tot('asserts')),'assertions_decided_symbolically':int(tot('asserts_symbolic')),'symbolic_address_checks':int(tot('memchecks_symbolic')),
       'functions_encoded':fns,
       'units':[{k:st[k] for k in ('unit','bounds','params','wall_s','exhausted','paths','completed','forks','queries','sat','unsat','unknown','solver_s','dropped','bound_hits','unknown_drop','assert_unknown','assumed_away','reach','not_reached','traces','mismatch') if k in st}|({'not_modelled':st['not_modelled']} if 'not_modelled' in st else {}) for st in res],
       'unconfirmed_counterexamples':unconf,'known_findings_seen':sorted(knownhit)}}
    json.dump(ev,open(ROOT+'/evidence/%s.json'%prop,'w'),indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s'%(prop,k['what']))
    for w in unconf: print('unconfirmed (not reported):',w)
    for st in res:
        if st['not_reached']: print('warning: witness not reached in',st['unit'],st['not_reached'])
        if st['mismatch']: print('warning: engine/native mismatch in',st['unit'],st['mismatch'][0]['exit'],st['mismatch'][0]['out'][-200:])
        if st.get('not_modelled'): print('warning: not modelled:',st['not_modelled'][:3])
    if not keep: shutil.rmtree(work,ignore_errors=True)
    if viol:
        for what,dst,text in viol: print('# %s -- %s'%(what,text)); print('VIOLATION property=%s replay=%s'%(prop,dst))
        sys.exit(1)
    if err: print('error:',err); sys.exit(2)
    print('%s %s: held on everything explored: %d paths, %d queries, %s, %.1fs'%(prop,tier,tot('paths'),tot('queries'),'exhaustive within bounds' if ev['coverage']['exhaustive'] else 'time-bounded',time.time()-t0))
    sys.exit(0)
if __name__=='__main__': main()
