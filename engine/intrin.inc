static string cstr(State&s,W*p){ PD d=decodePtr(p); if(d.rid<=0||!isC(d.off)) unsupported("string argument"); string r; for(u64 i=0;i<200;i++){ Blob b=readMem(s,d.rid,C64(d.off->c+i),C64(1)); W*c=blobBytes(b)[0]; if(!isC(c)) unsupported("string argument"); if(!c->c) break; r+=(char)c->c; } return r; }
static u128 ufAcc; static bool ufOpen=false; static int ufOuts=0; static string ufName; static H ufH;
static u32 ufAttr=0;
// content equality; returns literal-free verdict
static bool eqBlobs(State&s,const Blob&a0,const Blob&b0,string*why){
  Blob a=canonBlob(a0,s.f),b=canonBlob(b0,s.f);
  auto same=[&]{ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++){ if(a[i].n!=b[i].n||a[i].sn!=b[i].sn||a[i].arr!=b[i].arr||a[i].off!=b[i].off) return false; if(a[i].cells) for(u64 k=0;k<a[i].n;k++) if(a[i].byte(k)!=b[i].byte(k)) return false; } return true; };
  if(same()) return true;
  bool sa,sb; u64 na=blobLen(a,&sa),nb=blobLen(b,&sb);
  if(sa||sb){ if(a.size()==1&&b.size()==1&&a[0].arr&&b[0].arr&&a[0].sn&&b[0].sn){ *why="symbolic-length contents differ: "+arrStr(a[0].arr)+"["+wStr(a[0].off,3)+"..] vs "+arrStr(b[0].arr)+"["+wStr(b[0].off,3)+"..]"; return false; } *why="symbolic-length contents differ in structure"; return false; }
  if(na!=nb){ *why="lengths differ"; return false; }
  // compare piecewise, bytes only where pieces differ
  size_t i=0,j=0; u64 oi=0,oj=0,pos=0; u64 bad=0; string w1; u64 cmp=0;
  while(i<a.size()&&j<b.size()){ if(oi==a[i].n){i++;oi=0;continue;} if(oj==b[j].n){j++;oj=0;continue;} u64 m=min(a[i].n-oi,b[j].n-oj); Piece p=subP(a[i],oi,m),q=subP(b[j],oj,m);
    if(!(p.arr&&p.arr==q.arr&&p.off==q.off)) for(u64 k=0;k<m;k++){ W*x=p.byte(k),*y=q.byte(k); if(x==y) continue; x=wReduce(x,s.f); y=wReduce(y,s.f); if(x==y) continue; Lit e=cEq(x,y,s.f); string w; bool ok=++cmp<200000&&proveLit(e,s.f,&w); if(!ok){ *why="byte "+to_string(pos+k)+": "+wStr(x,4)+" vs "+wStr(y,4)+(w.empty()?"":" ("+w+")"); (void)bad; return false; } }
    pos+=m; oi+=m; oj+=m; }
  return true; }
static bool runIntrinsic(State&s,FnInfo*fi,llvm::CallBase*CB,Function*F,Val*ret){
  string n=F->getName().str();
  auto A=[&](int i){ return eval(s,fi,CB->getArgOperand(i)); }; auto AW=[&](int i){ return wReduce(evalW(s,fi,CB->getArgOperand(i)),s.f); };
  auto AP=[&](int i){ W*p=evalW(s,fi,CB->getArgOperand(i)); if(decodePtr(p).rid<=0) p=wReduce(p,s.f); return p; };
  auto z64=[&](W*w){ return w->w<64?wZext(w,64,s.f):w; };
  auto AC=[&](int i)->u64{ W*w=AW(i); if(!isC(w)){ u64 lo,hi; if(urange(w,s.f,lo,hi)&&lo==hi) return lo; unsupported("constant argument expected for "+n+": "+wStr(w,3)); } return w->c; };
  if(n.rfind("llvm.",0)==0){
    auto pre=[&](const char*p){ return n.rfind(p,0)==0; };
    if(pre("llvm.dbg")||pre("llvm.assume")||pre("llvm.donothing")||pre("llvm.experimental.noalias")||pre("llvm.prefetch")||pre("llvm.stackrestore")||pre("llvm.var.annotation")) return true;
    if(pre("llvm.stacksave")){ *ret=mkV(C64(0)); return true; }
    if(pre("llvm.lifetime")){ PD d=decodePtr(AW(1)); if(d.rid>0&&findReg(s,d.rid)){ for(auto&m:s.mem) if(m.first==d.rid) m.second=initContent(d.rid); } return true; }
    if(pre("llvm.memcpy")||pre("llvm.memmove")){ memcpyOp(s,AP(0),AP(1),z64(AW(2))); return true; }
    if(pre("llvm.memset")){ W*v=AW(1); W*len=z64(AW(2)); if(isC(v)) doWrite(s,AP(0),{runS(mkConstB(v->c),C64(0),len)},len,0); else { if(!isC(len)) unsupported("memset"); doWrite(s,AP(0),{cellsP(vector<W*>(len->c,v))},len,0); } return true; }
    if(pre("llvm.objectsize")){ *ret=mkV(mkConst(tyBits(CB->getType()),~0ull)); return true; }
    if(pre("llvm.expect")||pre("llvm.is.constant")){ if(pre("llvm.is.constant")) *ret=mkV(mkConst(1,0)); else *ret=A(0); return true; }
    if(pre("llvm.trap")||pre("llvm.ubsantrap")){ s=State(); s.dead=true; return true; }
    vector<Val> a; for(unsigned i=0;i<CB->arg_size();i++) a.push_back(A(i));
    auto mm=[&](bool sg,bool mx){ *ret=mapVal2(a[0],a[1],[&](W*x,W*y){ Lit l=sg?cSlt(x,y,s.f):cUlt(x,y,s.f); return mx?wIte(l,y,x):wIte(l,x,y); }); };
    if(pre("llvm.umin")){ mm(0,0); return true; } if(pre("llvm.umax")){ mm(0,1); return true; } if(pre("llvm.smin")){ mm(1,0); return true; } if(pre("llvm.smax")){ mm(1,1); return true; }
    if(pre("llvm.abs")){ *ret=mapVal(a[0],[&](W*x){ return wIte(bitsOf(x)[x->w-1],wNeg(x),x); }); return true; }
    if(pre("llvm.fshl")||pre("llvm.fshr")){ bool l=pre("llvm.fshl"); if(!a[0].w) unsupported("vector funnel shift"); W*c=wReduce(a[2].w,s.f); if(!isC(c)) unsupported("variable rotate"); int w=a[0].w->w; u64 k=c->c%w; if(k==0) *ret=l?a[0]:a[1]; else *ret=mkV(l? wOr(wShl(a[0].w,mkConst(w,k),s.f),wLshr(a[1].w,mkConst(w,w-k),s.f)): wOr(wShl(a[0].w,mkConst(w,w-k),s.f),wLshr(a[1].w,mkConst(w,k),s.f))); return true; }
    if(pre("llvm.bswap")){ *ret=mapVal(a[0],[&](W*x){ vector<W*> b; for(int i=x->w/8;i-->0;) b.push_back(wByte(x,i)); return wConcat(b); }); return true; }
    if(pre("llvm.ctpop")){ *ret=mapVal(a[0],[&](W*x){ W*acc=mkConst(x->w,0); for(Lit l:vector<Lit>(bitsOf(x))) acc=wAdd(acc,wZext(litW(l),x->w,s.f)); return acc; }); return true; }
    if(pre("llvm.ctlz")||pre("llvm.cttz")){ bool lz=pre("llvm.ctlz"); *ret=mapVal(a[0],[&](W*x){ auto b=vector<Lit>(bitsOf(x)); W*r=mkConst(x->w,x->w); for(int i=0;i<x->w;i++){ int p=lz?i:x->w-1-i; r=wIte(b[p],mkConst(x->w,lz?x->w-1-p:p),r); } return r; }); return true; }
    if(pre("llvm.uadd.with.overflow")||pre("llvm.usub.with.overflow")||pre("llvm.umul.with.overflow")){ W*x=a[0].w,*y=a[1].w; if(pre("llvm.uadd")){ W*r=wAdd(x,y); *ret=mkVec({mkV(r),mkV(litW(cUlt(r,x,s.f)))}); return true; } if(pre("llvm.usub")){ *ret=mkVec({mkV(wSub(x,y)),mkV(litW(cUlt(x,y,s.f)))}); return true; } }
    if(pre("llvm.vector.reduce.")){ W*acc=nullptr; for(auto&x:*a[0].v){ if(!acc){acc=x.w;continue;} if(pre("llvm.vector.reduce.add")) acc=wAdd(acc,x.w); else if(pre("llvm.vector.reduce.or")) acc=wOr(acc,x.w); else if(pre("llvm.vector.reduce.and")) acc=wAnd(acc,x.w); else if(pre("llvm.vector.reduce.xor")) acc=wXor(acc,x.w); else unsupported(n); } *ret=mkV(acc); return true; }
    if(vecIntrinsic(s,n,a,CB->getType(),ret)) return true;
    unsupported("intrinsic "+n); }
  if(F->isDeclaration()&&n.rfind("ai_",0)!=0){
    if(n=="memcpy"||n=="memmove"||n=="__memcpy_chk"||n=="__memmove_chk"){ W*p=AP(0); memcpyOp(s,p,AP(1),z64(AW(2))); *ret=mkV(p); return true; }
    if(n=="memset"||n=="__memset_chk"){ W*p=AW(0); W*v=wTrunc(AW(1),8); W*len=z64(AW(2)); if(isC(v)) doWrite(s,p,{runS(mkConstB(v->c),C64(0),len)},len,0); else { if(!isC(len)) unsupported("memset"); doWrite(s,p,{cellsP(vector<W*>(len->c,v))},len,0); } *ret=mkV(p); return true; }
    if(n=="memcmp"||n=="bcmp"||n=="timingsafe_bcmp"||n=="timingsafe_memcmp"||n=="CRYPTO_memcmp"){ W*len=z64(AW(2)); if(!isC(len)) unsupported("memcmp of symbolic length"); vector<W*> x=blobBytes(doRead(s,AP(0),len)),y=blobBytes(doRead(s,AP(1),len)); Lit e=TRUE_; for(size_t i=0;i<x.size();i++){ e=mkAnd(e,cEq(wReduce(x[i],s.f),wReduce(y[i],s.f),s.f)); } if(ctMode) oblig("ct",!(litAttr(e)&A_SECRET),[&]{return string("memcmp has data-dependent timing");}); if(litAttr(e)&A_UNINIT) oblig("uninit",false,[&]{return string("memcmp of uninitialised data");}); *ret=mkV(wIte(e,mkConst(32,0),mkHavoc(32,"memcmp",1,0x7fffffff))); return true; }
    if(n=="abort"||n=="exit"||n=="__assert_fail"||n=="_exit"){ oblig("extern",false,[&]{return "calls "+n;}); s=State(); s.dead=true; return true; }
    if(stubs.count(baseName(n))) return false;
    if(n=="printf"||n=="fprintf"||n=="puts"||n=="putchar"||n=="fputs"||n=="fputc"||n=="fwrite"||n=="fputwc"||n=="perror"||n=="fflush"){ oblig("extern",false,[&]{return "calls "+n;}); *ret=mkV(mkHavoc(tyBits(CB->getType()),n,0,maskw(tyBits(CB->getType())))); return true; }
    unsupported("call of external function "+n); }
  if(n.rfind("ai_",0)!=0||n.rfind("ai_stub_",0)==0||!F->isDeclaration()) return false;
  // ---- analyser intrinsics
  if(n=="ai_u64"){ string nm=cstr(s,AW(0)); u64 lo=AC(1),hi=AC(2); int bits=0; while(bits<64&&(hi>>bits)) bits++; if(!bits) bits=1; *ret=mkV(wZext(mkOp(bits,OP_HAVOC,{},(u64)H().add(nm).add(lo).add(hi).get(),nullptr,lo,hi,0),64,s.f)); return true; }
  if(n=="ai_fresh"){ W*p=AW(0); W*len=z64(AW(1)); string nm=cstr(s,AW(2)); u64 el=AC(3),lo=AC(4),hi=AC(5),at=AC(6); doWrite(s,p,{runS(mkBase(nm,el,lo,hi,at,nm.rfind("random",0)==0),C64(0),len)},len,0); return true; } // draws are new on every call
  if(n=="ai_object"){ W*sz=z64(AW(0)); int r=newRegion(cstr(s,AW(1)),sz); s.mem.push_back({r,initContent(r)}); *ret=mkV(Regs[r].base); return true; }
  if(n=="ai_assume"){ Lit l=litReduce(NOT(cEq(AW(0),mkConst(AW(0)->w,0),s.f)),s.f); Fact*f=factAssume(s.f,l,false); if(!f){ s=State(); s.dead=true; return true; } s.f=f; return true; }
  if(n=="ai_prove"){ W*v=AW(0); string msg=cstr(s,AW(1)); Lit l=NOT(cEq(v,mkConst(v->w,0),s.f)); string why; bool ok= !(litAttr(l)&A_UNINIT)&&proveLit(l,s.f,&why,18); if(litAttr(l)&A_UNINIT){ Lit q=litReduce(l,s.f); if(!(litAttr(q)&A_UNINIT)) ok=proveLit(q,s.f,&why,18); else why="depends on uninitialised data"; } oblig("prove",ok,[&]{return msg+": "+why;}); return true; }
  if(n=="ai_prove_eq"){ string msg=cstr(s,AW(3)); W*len=z64(AW(2)); Blob a=doRead(s,AP(0),len),b=doRead(s,AP(1),len); string why; bool ok=eqBlobs(s,a,b,&why); oblig("prove",ok,[&]{return msg+": "+why;}); return true; }
  if(n=="ai_prove_eqv"){ string msg=cstr(s,AW(2)); W*a=AW(0),*b=AW(1); string why; bool ok=a==b; auto onebit=[&](W*x){ const auto&b=bitsOf(x); for(size_t i=1;i<b.size();i++) if(b[i]!=FALSE_) return false; return true; };
    if(!ok&&(a->k==W_BITS||b->k==W_BITS)&&onebit(a)&&onebit(b)&&!((a->attr|b->attr)&A_UNINIT)){ ok=proveEquiv(bitsOf(a)[0],bitsOf(b)[0],s.f,&why); } else if(!ok){ Lit e=cEq(a,b,s.f); ok=proveLit(e,s.f,&why,18); if(!ok) why=wStr(a,5)+" vs "+wStr(b,5)+" ("+why+")"; } oblig("prove",ok,[&]{return msg+": "+why;}); return true; }
  if(n=="ai_prove_guarded"){ // every piece of src stored at store, under its guard, belongs to an element whose flag is 0
    W*ps=AP(0),*pq=AP(1); u64 sz=AW(2)->c; W*pf=AP(3); u64 cnt=AW(4)->c; string msg=cstr(s,AW(5)); PD ds=decodePtr(ps),dq=decodePtr(pq),df=decodePtr(pf);
    Blob src=canonBlob(doRead(s,pq,C64(sz*cnt)),s.f); if(src.size()!=1||!src[0].arr||src[0].arr->k!=A_BASE||!isC(src[0].off)){ oblig("prove",false,[&]{return msg+": source is not one array";}); return true; }
    Arr*A=src[0].arr; u64 a0=src[0].off->c; RP*rp=findReg(s,ds.rid); if(!rp) unsupported("ai_prove_guarded store"); Blob fl=doRead(s,pf,C64(cnt)); vector<W*> fv=blobBytes(fl); u64 checked=0;
    function<void(Arr*,W*,u64,Fact*)> run; function<void(W*,Fact*)> byteW;
    auto elems=[&](u64 lo,u64 hi,Fact*f){ for(u64 k=lo/sz;k*sz<hi;k++){ checked++; if(k>=cnt){ oblig("prove",false,[&]{return msg+": element "+to_string(k)+" does not exist";}); continue; } string why; Lit z=cEq(wReduce(fv[k],f),mkConst(8,0),f); bool ok=proveLit(z,f,&why); oblig("prove",ok,[&]{return msg+": element "+to_string(k)+" stored although its flag can be nonzero: "+why;}); } };
    run=[&](Arr*a,W*off,u64 len,Fact*f){ if(!f) return; if(a->k==A_ITE){ run(a->a,off,len,factAssume(f,a->c,true)); run(a->b,wAdd(off,a->d),len,factAssume(f,NOT(a->c),true)); return; }
      if(a==A){ W*o=wReduce(off,f); if(!isC(o)||o->c<a0){ oblig("prove",false,[&]{return msg+": element index "+wStr(o,4)+" not determined";}); return; } elems(o->c-a0,o->c-a0+len,f); return; }
      if(a->k==A_BYTES){ for(u64 i=0;i<len;i++) byteW(selByte(a,wAdd(off,C64(i))),f); return; }
      if(a->k==A_CONSTB||(a->attr&A_UNINIT)) return; oblig("prove",false,[&]{return msg+": stored content "+arrStr(a)+" is not classified";}); };
    byteW=[&](W*w,Fact*f){ w=wReduce(w,f); if(isC(w)||(w->attr&A_UNINIT)) return; if(w->k==W_OP&&w->op==OP_SEL) { run(w->arr,w->a[0],1,f); return; } oblig("prove",false,[&]{return msg+": stored byte "+wStr(w,4)+" is not classified";}); };
    auto piece=[&](const Piece&p,Fact*f){ if(p.arr) run(p.arr,p.off,p.n,f); else for(u64 i=0;i<p.n;i++) byteW(p.byte(i),f); };
    RegC&c=**rp; for(auto&x:c.segs) piece(x.second,s.f); if(c.sym) oblig("prove",false,[&]{return msg+": symbolic store";});
    for(auto&e:c.log){ Fact*g=e.g==TRUE_?s.f:factAssume(s.f,e.g,true); if(!g) continue; for(auto&p:e.c){ if(p.sn){ oblig("prove",false,[&]{return msg+": stored length not constant";}); continue; } piece(p,g); } }
    if(!checked) oblig("prove",false,[&]{return msg+": nothing stored";}); return true; }
  if(n=="ai_prove_init"){ string msg=cstr(s,AW(2)); W*len=z64(AW(1)); Blob b=canonBlob(doRead(s,AP(0),len),s.f); bool ok=true; string why; u64 pos=0; for(auto&p:b){ if(p.arr){ if(p.arr->attr&A_UNINIT){ if(p.sn){ ok=false; why="content "+arrStr(p.arr); } else for(u64 i=0;i<p.n&&ok;i++){ W*c=wReduce(p.byte(i),s.f); if(c->attr&A_UNINIT){ ok=false; why="byte "+to_string(pos+i)+" = "+wStr(c,3); } } } } else for(u64 i=0;i<p.n&&ok;i++){ W*c=wReduce(p.byte(i),s.f); if(c->attr&A_UNINIT){ ok=false; why="byte "+to_string(pos+i)+" = "+wStr(c,3); } } pos+=p.n; } oblig("prove",ok,[&]{return msg+": uninitialised "+why;}); return true; }
  if(n=="ai_prove_range"){ // every byte/element in memory range [lo,hi]
    W*len=z64(AW(1)); u64 el=AC(2),lo=AC(3),hi=AC(4); string msg=cstr(s,AW(5)); Blob b=canonBlob(doRead(s,AP(0),len),s.f); bool ok=true; string why; u64 pos=0;
    bool sy; blobLen(b,&sy); if(sy) unsupported("ai_prove_range of symbolic length");
    vector<W*> cells; Blob rest; 
    for(u64 i=0;i<len->c&&ok;){ // piece lookup
      u64 o=i,acc=0; const Piece*pp=nullptr; for(auto&p:b){ if(o<acc+p.n){ pp=&p; break; } acc+=p.n; } 
      if(pp->arr&&pp->arr->k==A_BASE&&pp->arr->elem==el&&acc==i&&pp->n%el==0&&isC(pp->off)&&pp->off->c%el==0&&!(pp->arr->attr&A_UNINIT)&&pp->arr->elo>=lo&&pp->arr->ehi<=hi){ i+=pp->n; continue; }
      vector<W*> by; for(u64 k=0;k<el;k++){ u64 o2=i+k,a2=0; for(auto&p:b){ if(o2<a2+p.n){ by.push_back(p.byte(o2-a2)); break; } a2+=p.n; } } W*v=wReduce(wConcat(by),s.f); u64 x,y; bool good=!(v->attr&A_UNINIT); if(good){ urange(v,s.f,x,y); if(!(x>=lo&&y<=hi)){ string w; good=proveLit(mkAnd(NOT(cUlt(mkConst(v->w,hi),v,s.f)),NOT(cUlt(v,mkConst(v->w,lo),s.f))),s.f,&w,18); why=w; } } else why="uninitialised"; if(!good){ ok=false; why="element "+to_string(i/el)+" = "+wStr(v,3)+" "+why; } i+=el; (void)pos; }
    oblig("prove",ok,[&]{return msg+": "+why;}); return true; }
  if(n=="ai_prove_perm"){ string msg=cstr(s,AW(3)); u64 cnt=AC(1),es=AC(2); Blob b=canonBlob(doRead(s,AP(0),C64(cnt*es)),s.f); vector<u64> seen; bool ok=true; string why; int d=0;
    function<void(const Blob&)> walk=[&](const Blob&bb){ if(++d>64){ ok=false; return; } for(auto&p:bb){ if(!ok) return; if(p.arr&&permOf.count(p.arr)){ const Blob&o=permOf[p.arr]; u64 z=blobLen(o); if(!(isC(p.off)&&p.off->c==0&&p.n==z)){ ok=false; why="only part of the exchanged range"; return; } walk(o); continue; } if(p.sn||p.n%es){ ok=false; why="piece of odd length"; return; } for(u64 i=0;i<p.n;i+=es){ vector<W*> v; for(u64 k=0;k<es;k++) v.push_back(p.byte(i+k)); W*w=wReduce(wConcat(v),s.f); if(!isC(w)){ ok=false; why="element "+wStr(w,3); return; } seen.push_back(w->c); } } };
    walk(b); if(ok){ sort(seen.begin(),seen.end()); if(seen.size()!=cnt){ ok=false; why="wrong number of elements"; } for(u64 i=0;i<seen.size()&&ok;i++) if(seen[i]!=i){ ok=false; why="initial content is not 0..n-1"; } } oblig("prove",ok,[&]{return msg+": "+why;}); return true; }
  if(n=="ai_prove_weight"){ string msg=cstr(s,AW(3)); u64 cnt=AC(1); W*want=z64(AW(2)); Blob b=canonBlob(doRead(s,AP(0),C64(cnt)),s.f); bool ok=true; string why; W*sum=C64(0);
    for(auto&p:b){ if(p.arr&&weightOf.count(p.arr)){ sum=wAdd(sum,weightOf[p.arr]); continue; } if(p.arr&&p.arr->k==A_CONSTB&&p.arr->cb==0) continue; if(p.sn){ ok=false; why="content "+arrStr(p.arr); break; } for(u64 i=0;i<p.n&&ok;i++){ W*w=wReduce(p.byte(i),s.f); if(isC(w)){ if(w->c) sum=wAdd(sum,C64(1)); } else { ok=false; why="content not counted: "+wStr(w,3); } } if(!ok) break; }
    if(ok){ W*d=wReduce(wSub(sum,want),s.f); Range r=linRange(toLin(d),s.f); if(!(r.lo==0&&r.hi==0)){ ok=false; why="number of nonzero entries "+wStr(wReduce(sum,s.f),3); } } oblig("prove",ok,[&]{return msg+": "+why;}); return true; }
  if(n=="ai_draws"){ PD d=decodePtr(AW(0)); if(d.rid<=0) unsupported("ai_draws"); if(isC(AW(1))&&AC(1)==0) drawRegs.erase(d.rid); else drawRegs[d.rid]={(u32)AC(2),AC(3)}; return true; }
  if(n=="ai_ghost"){ static map<string,u64> gh; *ret=mkV(C64(gh[cstr(s,AW(0))]++)); return true; }
  if(n=="ai_same"){ W*len=z64(AW(2)); Blob a=doRead(s,AP(0),len),b=doRead(s,AP(1),len); *ret=mkV(mkConst(32,blobHash(canonBlob(a,s.f))==blobHash(canonBlob(b,s.f)))); return true; }
  if(n=="ai_is_const"){ W*w=AW(0); *ret=mkV(mkConst(32,isC(w))); return true; }
  if(n=="ai_readonly"){ PD d=decodePtr(AW(0)); if(d.rid<=0) unsupported("ai_readonly"); Regs[d.rid].readonly=AC(1); return true; }
  if(n=="ai_reach"){ if(!mute) reached[cstr(s,AW(0))]++; return true; }
  if(n=="ai_fix"){ fixFns.insert(cstr(s,AW(0))); return true; }
  if(n=="ai_ct"){ ctMode=AC(0); return true; }
  if(n=="ai_print"){ fprintf(stderr,"[%s] %s = %s\n",locStr(curI).c_str(),cstr(s,AW(0)).c_str(),wStr(AW(1),6).c_str()); return true; }
  if(n=="ai_dump"){ Blob b=canonBlob(doRead(s,AP(1),z64(AW(2))),s.f); fprintf(stderr,"[dump %s]",cstr(s,AW(0)).c_str()); int k=0; for(auto&p:b){ if(++k>40) break; if(p.arr) fprintf(stderr," %s[%s +%s]",arrStr(p.arr).c_str(),wStr(p.off,3).c_str(),p.sn?wStr(p.sn,2).c_str():to_string(p.n).c_str()); else { fprintf(stderr," cells%llu{",(unsigned long long)p.n); for(u64 i=0;i<p.n&&i<4;i++) fprintf(stderr,"%s ",wStr(p.byte(i),3).c_str()); fprintf(stderr,"}"); } } fprintf(stderr,"\n"); for(auto&p:b) if(p.arr&&outT.count(p.arr)){ vector<TNode*> v; for(TNode*t=outT[p.arr];t;t=t->prev) v.push_back(t); reverse(v.begin(),v.end()); for(auto*t:v) fprintf(stderr,"  T %s[%s +%s]\n",arrStr(t->arr).c_str(),wStr(t->off,3).c_str(),wStr(t->len,2).c_str()); } return true; }
  if(n=="ai_sponge_init"){ W*p=AW(0); u64 sz=AC(1); string v=cstr(s,AW(2)); doWrite(s,p,{runP(mkSpongeArr(v,0,nullptr,nullptr),C64(0),sz)},C64(sz),0); return true; }
  if(n=="ai_sponge_seed"){ // squeeze-phase sponge with a fixed source name
    W*p=AW(0); u64 sz=AC(1); string v=cstr(s,AW(2)); W*q=z64(AW(3)); doWrite(s,p,{runP(mkSpongeArr(v,1,nullptr,q),C64(0),sz)},C64(sz),0); return true; }
  if(n=="ai_sponge_absorb"||n=="ai_sponge_final"||n=="ai_sponge_squeeze"||n=="ai_sponge_digest"){
    bool sq=n=="ai_sponge_squeeze",dg=n=="ai_sponge_digest"; W*cp= AW((sq||dg)?3:0); u64 csz=AC((sq||dg)?2:1); string want=cstr(s,AW((sq||dg)?4:(n=="ai_sponge_final"?2:4)));
    Blob cb=canonBlob(doRead(s,cp,C64(csz)),s.f); bool good=cb.size()==1&&cb[0].arr&&isC(cb[0].off)&&cb[0].off->c==0;
    Blob in; W*len=nullptr; W*outp=nullptr; if(n=="ai_sponge_absorb"){ len=z64(AW(3)); in=doRead(s,AP(2),len); Blob c=canonBlob(in,s.f); bool un=false; for(auto&p:c){ if(p.arr){ if(p.arr->attr&A_UNINIT){ if(p.sn) un=true; else for(u64 i=0;i<p.n&&!un;i++) if(wReduce(p.byte(i),s.f)->attr&A_UNINIT) un=true; } } else for(u64 i=0;i<p.n&&!un;i++) if(p.byte(i)->attr&A_UNINIT) un=true; } oblig("uninit",!un,[&]{return string("uninitialised bytes are hashed");}); in=c; }
    if(sq||dg){ outp=AP(0); len=z64(AW(1)); }
    function<Arr*(Arr*,Arr*&)> step=[&](Arr*a,Arr*&o)->Arr*{ o=nullptr;
      if(a->k==A_ITE){ Arr*o1,*o2; Arr*x=step(a->a,o1),*y=step(a->b,o2); if(!x||!y) return nullptr; if(o1) o= mkIteArr(a->c,o1,o2,C64(0)); return joinSponge(a->c,x,y); }
      if(a->k!=A_SPONGE) return nullptr; if(a->variant!=want&&a->variant.rfind(want+"/",0)!=0&&want!="*") return nullptr;
      if(n=="ai_sponge_absorb"){ if(a->phase!=0) return nullptr; return mkSpongeArr(a->variant,0,tAppendBlob(a->t,in,s.f),nullptr); }
      if(n=="ai_sponge_final"){ if(a->phase!=0) return nullptr; return mkSpongeArr(a->variant,1,a->t,C64(0)); }
      if(sq){ if(a->phase!=1) return nullptr; Arr*O=outArr(a->variant,a->t); // window starting at q
        Arr*win=O; o=win; return mkSpongeArr(a->variant,1,a->t,wAdd(a->q,len)); }
      if(a->phase!=0) return nullptr; o=outArr(a->variant,a->t); return mkSpongeArr(a->variant,2,a->t,nullptr); };
    Arr*o=nullptr,*na=nullptr; Piece outPiece; bool have=false;
    if(good){ Arr*a=cb[0].arr; if(a->k==A_SPONGE&&sq&&a->phase==1&&(a->variant==want||a->variant.rfind(want+"/",0)==0||want=="*")){ outPiece=runS(outArr(a->variant,a->t),a->q,len); have=true; na=mkSpongeArr(a->variant,1,a->t,wAdd(a->q,len)); }
      else if(a->k==A_ITE&&sq){ // align windows
        function<bool(Arr*,Arr*&,W*&,Arr*&)> rec=[&](Arr*x,Arr*&oa,W*&of,Arr*&st)->bool{ if(x->k==A_ITE){ Arr*a1,*a2,*s1,*s2; W*f1,*f2; if(!rec(x->a,a1,f1,s1)||!rec(x->b,a2,f2,s2)) return false; oa=mkIteArr(x->c,a1,a2,wSub(f2,f1)); of=f1; st=joinSponge(x->c,s1,s2); return true; } if(x->k!=A_SPONGE||x->phase!=1) return false; oa=outArr(x->variant,x->t); of=x->q; st=mkSpongeArr(x->variant,1,x->t,wAdd(x->q,len)); return true; };
        Arr*oa;W*of; if(rec(a,oa,of,na)){ outPiece=runS(oa,of,len); have=true; } }
      else { na=step(a,o); if(dg&&na&&o){ outPiece=runS(o,C64(0),len); have=true; } } }
    oblig("sponge",na!=nullptr,[&]{ string d; for(auto&p:cb) d+=p.arr?arrStr(p.arr)+" ":"cells "; return "hash state used out of order or corrupted ("+n.substr(10)+" on "+d+")"; });
    if(!na){ na=mkSpongeArr(want,sq||n=="ai_sponge_final"?1:dg?2:0,mkT(nullptr,mkBase("bad-sponge",1,0,255,0,true),C64(0),C64(1)),(sq||n=="ai_sponge_final")?C64(0):nullptr); if(sq||dg){ outPiece=runS(mkBase("bad-hash",1,0,255,0,true),C64(0),len); have=true; } }
    doWrite(s,cp,{runP(na,C64(0),csz)},C64(csz),0);
    if(have) doWrite(s,outp,{outPiece},len,0);
    return true; }
  if(n=="ai_uf_begin"){ ufH=H(); ufName=cstr(s,AW(0)); ufH.add(ufName); ufOuts=0; ufAttr=0; return true; }
  if(n=="ai_uf_in"){ W*len=z64(AW(1)); Blob b=canonBlob(doRead(s,AP(0),len),s.f); bool un=false; string w; u64 pos=0; for(auto&p:b){ if(p.arr){ if(p.arr->attr&A_UNINIT){ if(p.sn) un=true; else for(u64 i=0;i<p.n&&!un;i++) if(wReduce(p.byte(i),s.f)->attr&A_UNINIT){ un=true; w="byte "+to_string(pos+i); } } } else for(u64 i=0;i<p.n&&!un;i++) if(p.byte(i)->attr&A_UNINIT){ un=true; w="byte "+to_string(pos+i); } pos+=p.n; } oblig("uninit",!un,[&]{return "input of "+ufName+" is not completely initialised ("+w+")";}); ufH.add(blobHash(b)); return true; }
  if(n=="ai_uf_val"){ W*v=AW(0); checkUninitW(v,s,"argument"); ufH.add(v->h); return true; }
  if(n=="ai_uf_out"){ W*len=z64(AW(1)); u64 el=AC(2),lo=AC(3),hi=AC(4); string tag=cstr(s,AW(5)); u128 h=ufH.get(); Arr*a=mkBase(ufName+"."+tag+"<"+hex128(h).substr(0,8)+">"+hex128(h),el,lo,hi,0,false); doWrite(s,AP(0),{runS(a,C64(0),len)},len,0); return true; }
  if(n=="ai_uf_ret"){ u64 bits=AC(0),lo=AC(1),hi=AC(2); H h=ufH; h.add((u64)0x3E7); int w=bits; *ret=mkV(wZext(mkOp(w,OP_UFRET,{},(u64)h.get(),nullptr,lo,hi,0),64,s.f)); return true; }
  if(n=="ai_hash_out"){ Blob b=canonBlob(doRead(s,AP(0),z64(AW(1))),s.f); if(!mute) hashes[cstr(s,AW(2))]=hex128(blobHash(b)); return true; }
  if(n=="ai_assume_weight"){ // number of nonzero bytes equals v (global assumption)
    W*len=AW(1); u64 v=AC(2); vector<W*> x=blobBytes(doRead(s,AP(0),z64(len))); LinF l; l.c=-(i64)v; for(W*c:x){ Lit nz=NOT(cEq(c,mkConst(8,0),s.f)); LinF q=toLin(wZext(litW(nz),64,s.f)); l.c+=q.c; for(auto&t:q.t) l.t.push_back(t); } addEquality(l); return true; }
  unsupported("unknown analyser intrinsic "+n); }
