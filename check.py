#!/usr/bin/env python3
"""check.py <PROPERTY> : analyses the current /repo sources and decides one property (see DESIGN.md).
exit 0: every obligation discharged; 1: violation (VIOLATION line); 2: the analysis could not be carried out."""
import sys,os,json,subprocess,tempfile,shutil,time,re,resource
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('LESS_REPO','/repo')
sys.path.insert(0,V)
from checks import CHECKS,CONFIGS
CLANG='/usr/bin/clang-18'; OPT='/usr/bin/opt-18'; LINK='/usr/bin/llvm-link-18'
SRCS='codes fips202 keccakf1600 LESS monomial rng seedtree sign utils'.split()
IMPL={'ref':dict(inc=['Reference_Implementation/include'],lib='Reference_Implementation/lib',flags=[]),
      'opt':dict(inc=['Optimized_Implementation/common/include','Optimized_Implementation/avx2/include'],lib='Optimized_Implementation/common/lib',flags=['-mavx2','-DAI_OPT=1'])}
class Err(Exception): pass
def sh(cmd,timeout=600,**kw):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout,**kw)
    if r.returncode!=0: raise Err('command failed: %s\n%s'%(' '.join(cmd[:6])+' ...'+' '.join(cmd[-3:]),r.stderr[-3000:]))
    return r.stdout
def limits():
    for l in (resource.RLIM_INFINITY,1<<33,1<<30):
        try: resource.setrlimit(resource.RLIMIT_STACK,(l,resource.RLIM_INFINITY if l==resource.RLIM_INFINITY else resource.getrlimit(resource.RLIMIT_STACK)[1])); break
        except Exception: continue
PASSES='function(sroa,mem2reg,loop-simplify,lcssa),mergereturn'
def sources(impl):
    d=os.path.join(REPO,IMPL[impl]['lib']); out=[]
    have=set(os.listdir(d))
    for s in SRCS:
        if s+'.c' not in have: raise Err('source file %s/%s.c not found'%(IMPL[impl]['lib'],s))
    for f in sorted(have):
        if f.endswith('.c'): out.append(os.path.join(d,f))
    return out
def cflags(impl,cfg):
    c=IMPL[impl]; fl=['-O1','-Xclang','-disable-llvm-passes','-g','-DNDEBUG','-w','-D'+cfg[0],'-D%s=1'%cfg[1]]+c['flags']
    for i in c['inc']: fl+=['-I',os.path.join(REPO,i)]
    return fl
def cfgname(impl,cfg): return '%s/%s-%s'%(impl,cfg[0].replace('CATEGORY_','cat'),cfg[1])
def compile_impl(tmp,impl,cfg):
    d=os.path.join(tmp,'%s_%s_%s'%(impl,cfg[0],cfg[1])); os.makedirs(d,exist_ok=True); outs=[]
    for s in sources(impl):
        o=os.path.join(d,os.path.basename(s)[:-2]+'.bc'); sh([CLANG]+cflags(impl,cfg)+['-c','-emit-llvm',s,'-o',o]); outs.append(o)
    lib=os.path.join(d,'lib.bc'); sh([LINK]+outs+['-o',lib]); return d
def run_one(tmp,libd,impl,cfg,h,entry,idx,timeout):
    src=os.path.join(V,'harness',h['file']); b=os.path.join(libd,'h%d.bc'%idx)
    sh([CLANG]+cflags(impl,cfg)+['-I',os.path.join(V,'engine'),'-I',os.path.join(V,'harness')]+h.get('defs',[])+['-c','-emit-llvm',src,'-o',b])
    a=os.path.join(libd,'a%d.bc'%idx); lib=os.path.join(libd,'lib.bc')
    if h.get('anchors'): # functions analysed on their own although they are not part of the library's interface
        l=os.path.join(libd,'l%d.ll'%idx); sh([DIS,lib,'-o',l]); t=open(l).read()
        for n in h['anchors']:
            if not re.search(r'^define [^@\n]*@%s\('%n,t,re.M): os.unlink(l); os.unlink(b); return None
            t=re.sub(r'^define internal ([^@\n]*@%s\()'%n,r'define \1',t,flags=re.M)
        open(l,'w').write(t); lib=os.path.join(libd,'l%d.bc'%idx); sh([AS,l,'-o',lib]); os.unlink(l)
    sh([LINK,lib,b,'-o',a]); o=os.path.join(libd,'o%d.bc'%idx)
    sh([OPT,'-passes='+h.get('passes',PASSES),a,'-o',o]); out=os.path.join(libd,'r%d.json'%idx)
    res=analyse(o,out,'%s: %s'%(cfgname(impl,cfg),h['file']),timeout)
    for f in (a,b,o,out): os.unlink(f)
    if h.get('anchors'): os.unlink(lib)
    return res
DIS='/usr/bin/llvm-dis-18'; AS='/usr/bin/llvm-as-18'
def analyse(o,out,what,timeout):
    r=subprocess.run([os.path.join(V,'build','lessai'),o,out],preexec_fn=limits,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout)
    if r.returncode!=0 or not os.path.exists(out): raise Err('%s: analyser failed (status %d) %s'%(what,r.returncode,r.stderr[-500:]))
    res=json.load(open(out))
    if res['status']!='ok': raise Err('%s: %s'%(what,res['error']))
    if res['dead_end']: raise Err('%s: no execution reaches the end of the analysed harness'%what)
    return res
def run_joint(tmp,libs,cfg,h,idx,timeout):
    """both implementations in one module: every symbol defined by one of them gets the prefix ref_/opt_"""
    d=tempfile.mkdtemp(dir=tmp); parts=[]
    inc=['-I',os.path.join(V,'engine'),'-I',os.path.join(V,'harness')]
    for impl in ('ref','opt'):
        pre=impl+'_'; b=os.path.join(d,pre+'side.bc'); a=os.path.join(d,pre+'all.bc'); l=os.path.join(d,pre+'all.ll'); o=os.path.join(d,pre+'ren.bc')
        sh([CLANG]+cflags(impl,cfg)+inc+['-DSIDE='+pre]+h.get('defs',[])+['-c','-emit-llvm',os.path.join(V,'harness',h['side']),'-o',b])
        sh([LINK,os.path.join(libs[impl],'lib.bc'),b,'-o',a]); sh([DIS,a,'-o',l]); t=open(l).read()
        names=set(re.findall(r'^define [^@\n]*@([\w.]+)\(',t,re.M))|{x for x,lk in re.findall(r'^@([\w.]+) = (\w+)',t,re.M) if lk not in ('private','external')}
        def ren(m):
            n=m.group(1)
            if n not in names or n.startswith(pre): return m.group(0)
            for q in ('ai_stub_','ai_req_'):
                if n.startswith(q): return '@'+q+pre+n[len(q):]
            return '@'+pre+n
        t=re.sub(r'@([A-Za-z_.][\w.]*)',ren,t); open(l,'w').write(t); sh([AS,l,'-o',o]); parts.append(o)
    m=os.path.join(d,'main.bc'); sh([CLANG]+cflags('ref',cfg)+inc+h.get('defs',[])+['-c','-emit-llvm',os.path.join(V,'harness',h['file']),'-o',m])
    a=os.path.join(d,'a.bc'); o=os.path.join(d,'o.bc'); out=os.path.join(d,'r.json'); sh([LINK]+parts+[m,'-o',a]); sh([OPT,'-passes='+h.get('passes',PASSES),a,'-o',o])
    res=analyse(o,out,'%s %s'%(h['file'],cfg),timeout); shutil.rmtree(d); return res
def known():
    p=os.path.join(V,'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings':[],'fixed':[]}
def main():
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if '--thorough' in sys.argv: tier='thorough'
    C=CHECKS[pid]; t0=time.time(); tmp=tempfile.mkdtemp(prefix='lessai.'); budget=float(C.get('timeout',860))
    evp=os.path.join(V,'evidence',pid+'.json'); os.makedirs(os.path.dirname(evp),exist_ok=True)
    tally={}; viols=[]; reached={}; funcs=set(); nres=0; perc=[]; steps=0; tables=[0,0]; hashes={}; notes=[]
    try:
        if not os.path.exists(os.path.join(V,'build','lessai')): sh(['bash',os.path.join(V,'engine','build.sh')])
        hs=C.get('harnesses',[]); cfgs=[(i,c) for c in CONFIGS for i in ('opt','ref')]
        libs={}
        if hs or C.get('libs'):
            jobs=[]
            with ThreadPoolExecutor(8) as ex:
                libs={k:ex.submit(compile_impl,tmp,*k) for k in cfgs}
                libs={k:v.result() for k,v in libs.items()}
                n=0
                for h in hs:
                    if h.get('side'):
                        for c in CONFIGS:
                            if 'cfgs' in h and (tier=='quick' or not h.get('thorough_all')) and c not in h['cfgs']: continue
                            n+=1; jobs.append((h,'ref',c,ex.submit(run_joint,tmp,{i:libs[(i,c)] for i in ('ref','opt')},c,h,n,max(10,budget-(time.time()-t0)))))
                        continue
                    for (i,c) in cfgs:
                        if 'impl' in h and i!=h['impl']: continue
                        if 'cfgs' in h and (tier=='quick' or not h.get('thorough_all')) and c not in h['cfgs']: continue
                        if h.get('tier','quick')=='thorough' and tier!='thorough': continue
                        n+=1; jobs.append((h,i,c,ex.submit(run_one,tmp,libs[(i,c)],i,c,h,None,n,max(10,budget-(time.time()-t0)))))
                err=None
                for h,i,c,j in jobs:
                    try: r=j.result()
                    except subprocess.TimeoutExpired: err=err or Err('time budget exceeded on %s %s'%((('both/'+cfgname('',c)[1:]) if h.get('side') else cfgname(i,c)),h['file'])); continue
                    except Err as e: err=err or e; continue
                    if r is None: notes.append('%s: %s not analysed, %s is not a function of its own here'%((('both/'+cfgname('',c)[1:]) if h.get('side') else cfgname(i,c)),h['file'],'/'.join(h['anchors']))); continue
                    nres+=1; kinds=h.get('kinds',C.get('kinds')); steps+=r['steps']; tables[0]+=r['tables']; tables[1]+=r['table_rows']
                    tot=0
                    for k,(a,b) in r['obligations'].items():
                        if k in kinds: x=tally.setdefault(k,[0,0]); x[0]+=a; x[1]+=b; tot+=a
                    for v in r['violations']:
                        if v['kind'] in kinds and not v['file'].startswith('/usr/'): viols.append(dict(v,config=(('both/'+cfgname('',c)[1:]) if h.get('side') else cfgname(i,c)),harness=h['file']))
                    for k,x in r['reached'].items(): reached[k]=reached.get(k,0)+x
                    for k,x in h.get('reach',{}).items():
                        need=x(c) if callable(x) else x
                        if r['reached'].get(k,0)<need: err=err or Err('%s: %s: expected at least %s instances of "%s", analysed %s'%((('both/'+cfgname('',c)[1:]) if h.get('side') else cfgname(i,c)),h['file'],need,k,r['reached'].get(k,0)))
                    if tot==0: err=err or Err('%s: %s produced no obligation'%((('both/'+cfgname('',c)[1:]) if h.get('side') else cfgname(i,c)),h['file']))
                    hashes[(h['file'],i,c)]=r['hashes']; funcs|=set(r['functions']); perc.append(dict(config=(('both/'+cfgname('',c)[1:]) if h.get('side') else cfgname(i,c)),harness=h['file'],obligations=tot,seconds=r['wall']))
                if err and not viols: raise err
                if err: notes.append('incomplete: '+str(err))
        if C.get('post'):
            C['post'](dict(tmp=tmp,libs=libs,PASSES=PASSES,hashes=hashes,viols=viols,tally=tally,reached=reached,funcs=funcs,perc=perc,V=V,REPO=REPO,sh=sh,Err=Err,cflags=cflags,sources=sources,cfgname=cfgname,CONFIGS=CONFIGS,CLANG=CLANG,OPT=OPT,LINK=LINK,tier=tier))
        if not tally or sum(x[0] for x in tally.values())==0: raise Err('no obligation was generated')
    except Err as e:
        print('ERROR: %s'%e,file=sys.stderr); print('analysis not carried out: %s'%str(e)[:2000]); return 2
    except subprocess.TimeoutExpired as e:
        print('ERROR: timeout %s'%e,file=sys.stderr); return 2
    finally: shutil.rmtree(tmp,ignore_errors=True)
    kf=[f for f in known()['findings'] if f['property']==pid]; new=[]; seen=set()
    for v in viols:
        m=[f for f in kf if f['kind']==v['kind'] and f['func']==v['func'] and re.search(f['match'],v['msg'])]
        if m: seen.add(m[0]['what'])
        else: new.append(v)
    for w in sorted(seen): print('KNOWN-FINDING: property=%s %s'%(pid,w))
    tot=sum(x[0] for x in tally.values()); dis=sum(x[1] for x in tally.values())
    cov={k+'_obligations':x[0] for k,x in tally.items()}
    cov.update({k+'_discharged':x[1] for k,x in tally.items()})
    cov.update(obligations=tot,discharged=dis,configurations_analysed=nres or len(perc),ir_instructions_interpreted=steps,finite_tables=tables[0],finite_table_rows=tables[1],functions=len(funcs))
    ev=dict(property=pid,tier=tier,seed=int(os.environ.get('VERIF_SEED','1')),level=C.get('level','other'),coverage=cov,explanation=C['explain'],
            wall_s=round(time.time()-t0,2),violations=len(new),assumptions=C.get('assumptions',[]))
    ev['coverage']['explanation']=C['explain']; ev['coverage']['rule']=C['rule']; ev['coverage']['functions_analysed']=sorted(funcs-{'ai_main'}); ev['coverage']['instances']=reached; ev['coverage']['runs']=perc
    if ev['level']=='proof': ev['coverage'].update(checker_cmd='python3 /verif/check.py '+pid,trusted_base=C.get('trusted',[]))
    if notes: ev['notes']=notes
    json.dump(ev,open(evp,'w'),indent=1)
    if new:
        rp=os.path.join(V,'evidence',pid+'.report.txt')
        with open(rp,'w') as f:
            f.write('Property %s\nRule: %s\n\n'%(pid,C['rule']))
            for v in new: f.write('[%s] %s (%s) %s:%s in %s\n    %s\n    path: %s\n'%(v['config'],v['kind'],v['harness'],v['file'].replace(REPO+'/',''),v['line'],v['func'],v['msg'],v['stack']))
        for v in new[:6]: print('%s %s:%s %s: %s'%(v['config'],v['file'].replace(REPO+'/',''),v['line'],v['func'],v['msg'][:300]))
        print('VIOLATION property=%s replay=%s'%(pid,rp)); return 1
    print('OK property=%s obligations=%d discharged=%d wall=%.1fs'%(pid,tot,dis,time.time()-t0)); return 0
if __name__=='__main__': sys.exit(main())
