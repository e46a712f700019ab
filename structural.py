# Structural (whole-program) rules evaluated on the linked IR of every configuration: call graph, effects, globals.
import os,json,subprocess
from concurrent.futures import ThreadPoolExecutor
ENTRIES=['crypto_sign_keypair','crypto_sign','crypto_sign_open','LESS_keygen','LESS_sign','LESS_verify']
def effects(x):
    def one(k):
        d=x['libs'][k]; o=os.path.join(d,'fx.bc'); j=os.path.join(d,'fx.json')
        x['sh']([x['OPT'],'-passes='+x['PASSES'],os.path.join(d,'lib.bc'),'-o',o])
        r=subprocess.run([os.path.join(x['V'],'build','effects'),o,j]+ENTRIES,stderr=subprocess.PIPE,text=True,timeout=300)
        if r.returncode: raise x['Err']('effect analysis failed on %s: %s'%(x['cfgname'](*k),r.stderr[-300:]))
        return k,json.load(open(j))
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one,x['libs']))
class Rec:
    def __init__(s,x): s.x=x
    def ob(s,k,kind,ok,at,msg):
        t=s.x['tally'].setdefault(kind,[0,0]); t[0]+=1; t[1]+=bool(ok)
        if not ok: s.x['viols'].append(dict(kind=kind,msg=msg,file=at.get('file',''),line=at.get('line',0),func=at.get('func',''),stack=at.get('stack',''),config=s.x['cfgname'](*k),harness='effects'))
def common(x,k,r):
    for e,d in r['entries'].items():
        x['funcs'].update(d['functions'])
        x['perc'].append(dict(config=x['cfgname'](*k),entry=e,call_contexts=d['contexts'],instructions=d['instructions'],stores=d['stores'],functions=len(d['functions'])))
def callpath(d,tgt,entry):
    from collections import deque
    par={entry:None}; q=deque([entry])
    while q:
        f=q.popleft()
        if f==tgt: break
        for a,b in d['edges']:
            if a==f and b not in par: par[b]=f; q.append(b)
    p=[]; f=tgt
    while f is not None: p.append(f); f=par.get(f)
    return ' > '.join(reversed(p))
def c12(x):
    R=Rec(x)
    for k,r in effects(x):
        common(x,k,r); E=r['entries']
        if not any('randombytes' in d['functions'] for d in E.values()): raise x['Err']('system random source randombytes is not called by the API')
        rng={g for g,i in r['globals'].items() if not i['const'] and 'randombytes' in i['refs']}
        if not rng: raise x['Err']('state of the system random source not found')
        for g,i in r['globals'].items():
            R.ob(k,'state',i['const'] or g in rng or not i['writes'],i['writes'][0] if i['writes'] else {},'mutable static state "%s" is written'%g)
        for e in ('LESS_verify','crypto_sign_open'):
            for g,at in E[e]['globals'].items():
                i=r['globals'].get(g,dict(const=False,writes=[1])); R.ob(k,'verify',i['const'] or not (i['writes'] or g in rng),at[0],'%s reaches mutable state "%s" (%s)'%(e,g,callpath(E[e],at[0]['func'],e)))
            R.ob(k,'verify','randombytes' not in E[e]['functions'],dict(func='randombytes'),'%s uses the system random source (%s)'%(e,callpath(E[e],'randombytes',e)))
def c13(x):
    R=Rec(x); ins={'crypto_sign':{2:'message',4:'secret key'},'crypto_sign_open':{2:'signed message',4:'public key'},'LESS_sign':{0:'secret key',1:'message'},'LESS_verify':{0:'public key',1:'message',3:'signature'}}
    for k,r in effects(x):
        common(x,k,r)
        for e,ps in ins.items():
            d=r['entries'][e]
            if d['indirect'] or d['unresolved_stores']:
                at=(d['indirect']+d['unresolved_stores'])[0]; raise x['Err']('cannot resolve the target of %s:%s in %s'%(at['file'],at['line'],at['func']))
            for p,nm in ps.items():
                w=d['param_writes'].get(str(p),[]); at=w[0] if w else {}
                R.ob(k,'readonly',not w,at,'%s may write into its input "%s" (%s)'%(e,nm,callpath(d,at.get('func',''),e) if w else ''))
OKEXT={'memcpy','memmove','memset','memcmp','bcmp','__memcpy_chk','__memset_chk','__memmove_chk'}
def c14(x):
    R=Rec(x)
    for k,r in effects(x):
        common(x,k,r)
        for e in ENTRIES:
            d=r['entries'][e]
            for q in d['externs']: R.ob(k,'extern',q['callee'] in OKEXT,q['at'],'%s reaches a call of %s outside the library (%s)'%(e,q['callee'],callpath(d,q['at']['func'],e)))
            for q in d['indirect']: R.ob(k,'extern',False,q,'unresolved indirect call reachable from '+e)
            for q in d['asm']: R.ob(k,'extern',False,q,'inline assembly reachable from '+e)
            # without the column sort, the call graph must be acyclic
            g={}
            for a,b in d['edges']: g.setdefault(a,set()).add(b)
            seen=set(); st=[e]
            while st:
                f=st.pop()
                if f in seen or f=='lex_sort_cols': continue
                seen.add(f); st+=list(g.get(f,()))
            for f in seen:
                r2=set(); st=[b for b in g.get(f,()) if b!='lex_sort_cols']
                while st:
                    b=st.pop()
                    if b in r2 or b=='lex_sort_cols': continue
                    r2.add(b); st+=list(g.get(b,()))
                R.ob(k,'recursion',f not in r2,dict(func=f),'%s is recursive and reachable from %s outside the column sort (%s)'%(f,e,callpath(d,f,e)))
# ---- constants
import re
def constants(x):
    def one(k):
        d=x['libs'][k] if k in x['libs'] else x['tmp']; o=os.path.join(d,'consts.ll')
        x['sh']([x['CLANG']]+x['cflags'](*k)+['-S','-emit-llvm',os.path.join(x['V'],'harness','consts.c'),'-o',o]); t=open(o).read()
        r={m.group(1):int(m.group(2))&(1<<64)-1 for m in re.finditer(r'@c_(\w+) = .*?constant i64 (-?\d+)',t)}; r['_tree']=None
        return k,r
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one,[(i,c) for c in x['CONFIGS'] for i in ('opt','ref')]))
def worst_published(T,W,leaves):
    """largest number of maximal unchallenged subtrees over all placements of exactly W challenged leaves among the first T (unused leaves count as unchallenged)"""
    NEG=-1<<40; memo={}
    def g(lo,sz):
        used=max(0,min(T-lo,sz)); key=(used,sz)
        if key in memo: return memo[key]
        if sz==1: r=[0,0] if used else [0]
        else:
            a=g(lo,sz//2); b=g(lo+sz//2,sz//2); n=min(used,W); r=[NEG]*(n+1)
            for i,p in enumerate(a):
                for j,q in enumerate(b):
                    if i+j>n: break
                    v=0 if i+j==0 else p+q+(i==0)+(j==0)
                    if v>r[i+j]: r[i+j]=v
        memo[key]=r; return r
    return g(0,leaves)[W]
def c16(x):
    R=Rec(x); bl=lambda v: max(1,v.bit_length()); cd=lambda a,b:-(-a//b)
    for k,c in constants(x):
        at=dict(file=os.path.join(x['REPO'],'Reference_Implementation/include/parameters.h' if k[0]=='ref' else 'Optimized_Implementation/common/include/parameters.h'),line=0,func='parameter set')
        n=0
        def ob(ok,msg):
            nonlocal n; n+=1; R.ob(k,'params',ok,at,msg)
        D=type('D',(),c)
        ob(D.Q==127,'field size is 127'); ob(D.N==2*D.K,'code rate is 1/2 (buffers are indexed both by K and by N-K)')
        ob(1<=D.W<=D.T,'weight at most length'); ob(D.NK>=2,'at least two key pairs'); ob(D.NK-1<=255,'challenge entries fit a byte')
        ob(D.szel*8>=bl(D.Q-1) and D.szel==1,'field element type holds 0..126 in one byte'); ob(2**(8*D.szdb)>D.Q+(D.Q-1)**2,'product type holds a product plus Q'); ob(2**(8*D.szdb)>D.Q+D.Q*(D.Q-1),'product type holds Q + multiplier times element')
        ob(D.posmax>=D.N-1,'position type holds N-1'); ob(D.posmax>=D.T-1 and 2**bl(D.T-1)-1<=D.posmax,'position type holds a masked round index'); ob(2*D.N<2**31,'')
        ob(D.bitsN==bl(D.N) and D.bitsNm==bl(D.N-1) and D.bitsQ==bl(D.Q) and D.bitsQm==bl(D.Q-1) and D.bitsTm==bl(D.T-1) and D.bitsNKm==bl(D.NK-1),'bit-length macro is the bit length')
        ob(D.bitsNKm+D.bitsTm<=16,'one 16-bit draw carries a key index and a position'); ob(D.MASKQ==2**bl(D.Q-1)-1,'coefficient mask covers 0..Q-1 exactly'); ob(D.MASKN==2**D.bitsN-1 and D.MASKN>=D.N-1,'position mask covers 0..N-1'); ob(D.T<=65536,'round index fits 16 bits')
        ob(D.RREFPB==cd(D.bitsQ*(D.N-D.K)*D.K,8)+cd(D.N,8),'packed public matrix has room for K*(N-K) 7-bit values and N flags, rounded to bytes'); ob(D.MONOPB==cd(D.bitsQ*D.K,8)+cd(D.bitsN*D.K,8),'packed response has room for K coefficients and K positions, each rounded to bytes')
        ob(2**D.bitsQ>=D.Q and 2**D.bitsN>=D.N,'packed fields wide enough')
        ob(D.HASH==2*D.SEED and D.PRIV==2*D.SEED,'digest, salt and private seed are twice the seed length'); lam={'CATEGORY_1':128,'CATEGORY_3':192,'CATEGORY_5':256}[k[1][0]]
        ob(D.SEED*8==lam,'seed length is the security level'); ob(D.sha==2*lam,'digest function output is the digest length'); ob(D.shake>=min(lam,256) and (D.shake==128)==(lam==128),'extendable-output function matches the security level')
        # layouts
        ob(D.pk_g0==0 and D.pk_sf==D.SEED and D.pk_g0sz==D.SEED and D.pk_sfsz==(D.NK-1)*D.RREFPB and D.szpk==D.SEED+(D.NK-1)*D.RREFPB and D.apipk==D.szpk,'public key: seed then NUM_KEYPAIRS-1 packed matrices, no padding, API size equal')
        ob(D.sk_seed==0 and D.sk_g0==D.PRIV and D.sk_seedsz==D.PRIV and D.sk_g0sz==D.SEED and D.szsk==D.PRIV+D.SEED and D.apisk==D.szsk,'secret key: private seed then public seed, no padding, API size equal')
        ob(D.sg_salt==0 and D.sg_saltsz==D.HASH and D.sg_act==D.HASH and D.sg_actsz==D.W*D.MONOPB and D.sg_actrow==D.MONOPB and D.sg_dig==D.sg_act+D.sg_actsz and D.sg_digsz==D.HASH and D.sg_seed==D.sg_dig+D.HASH,'signature: salt, W packed responses, digest, seeds, without gaps')
        ob(D.sg_seedsz==D.MAXPUBB+1 and D.szsig==D.sg_seed+D.MAXPUBB+1 and D.apisig==D.szsig,'signature ends with the seed space and one count byte')
        ob(D.len0==2*D.HASH+D.W*D.MONOPB+1 and D.len1-D.len0==D.SEED and D.lenM==D.szsig and D.lenmax==D.szsig,'encoded length formula agrees with the structure for 0, 1 and the maximum number of seeds')
        # seed tree
        ob(D.LEAVES&(D.LEAVES-1)==0 and D.LEAVES>=D.T and D.NODES==2*D.LEAVES-1,'seed tree is a complete binary tree with a leaf for every round')
        ob(D.MAXPUBB==D.MAXPUB*D.SEED,'seed space holds a whole number of seeds'); ob(D.MAXPUB<=255,'seed count fits its byte')
        w=worst_published(D.T,D.W,D.LEAVES) if D.LEAVES&(D.LEAVES-1)==0 and D.LEAVES>=D.T>=D.W else 1<<40
        ob(w<=D.MAXPUB,'a challenge of weight %d over %d rounds can publish %d seeds, but only %d fit the reserved space'%(D.W,D.T,w,D.MAXPUB))
        # matrices
        ob(D.V_rows==D.K and D.V_rowsz==D.N-D.K and D.szV==D.K*(D.N-D.K),'hashed commitment matrix is K x (N-K) bytes without padding'); ob(D.G_rows==D.K and D.G_rowsz>=D.N,'generator matrix rows hold N elements'); ob(D.R_rows==D.K and D.R_rowsz>=D.N-D.K and D.R_pos>=(D.N-D.K)*D.szpos,'compact matrix rows hold N-K elements and positions')
        ob(D.m_coef>=D.N and D.m_perm>=D.N*D.szpos and D.a_coef>=D.K and D.a_perm>=D.K*D.szpos,'monomials hold N, actions K entries'); ob(D.Npad>=D.N and D.Kpad>=D.K and D.NKpad>=D.N-D.K,'paddings not smaller than the sizes'); ob(k[0]=='ref' or (D.Npad%32==0 and D.G_rowsz%32==0),'padded rows are whole vectors')
        x['perc'].append(dict(config=x['cfgname'](*k),obligations=n,worst_case_published=w,reserved=D.MAXPUB)); x['reached']['parameter sets']=x['reached'].get('parameter sets',0)+1
WIRE='N K Q T W NK SEED HASH PRIV MAXPUBB LEAVES NODES RREFPB MONOPB szpk szsk szsig pk_g0 pk_sf pk_sfsz pk_g0sz sk_seed sk_g0 sk_seedsz sk_g0sz sg_salt sg_act sg_dig sg_seed sg_saltsz sg_actsz sg_actrow sg_digsz sg_seedsz len0 len1 lenM lenmax apipk apisk apisig szV V_rowsz shake sha'.split()
def c17(x):
    R=Rec(x); cs=dict((k,c) for k,c in constants(x))
    for cfg in x['CONFIGS']:
        a,b=cs[('ref',cfg)],cs[('opt',cfg)]; at=dict(file=os.path.join(x['REPO'],'Optimized_Implementation/common/include/parameters.h'),line=0,func='parameter set')
        for n in WIRE: R.ob(('opt',cfg),'prove',a.get(n) is not None and a.get(n)==b.get(n),at,'layout constant %s is %s in the reference and %s in the optimised implementation'%(n,a.get(n),b.get(n)))
    x['reached']['layouts']=len(x['CONFIGS'])
