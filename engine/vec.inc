// vector intrinsics
static bool vecIntrinsic(State&s,const string&n,vector<Val>&a,Type*rt,Val*ret){
  auto W_=[&](const Val&v,size_t i){ return (*v.v)[i].w; };
  auto lanes=[&](const function<W*(size_t)>&f,size_t k){ vector<Val> v; for(size_t i=0;i<k;i++) v.push_back(mkV(f(i))); return mkVec(move(v)); };
  if(n=="llvm.x86.avx2.pshuf.b"||n=="llvm.x86.ssse3.pshuf.b.128"){ size_t N=a[0].v->size(); *ret=lanes([&](size_t i){ W*c=wReduce(W_(a[1],i),s.f); size_t base=i/16*16; if(isC(c)) return (c->c&0x80)? mkConst(8,0): W_(a[0],base+(c->c&15)); const auto b=bitsOf(c); W*r=mkConst(8,0); for(int k=15;k>=0;k--){ Lit e=TRUE_; for(int j=0;j<4;j++) e=mkAnd(e,(k>>j&1)?b[j]:NOT(b[j])); r=wIte(e,W_(a[0],base+k),r); } return wIte(b[7],mkConst(8,0),r); },N); return true; }
  auto pre=[&](const char*p){ return n.rfind(p,0)==0; };
  for(const char*p:{"llvm.x86.avx2.pslli.","llvm.x86.avx2.psrli.","llvm.x86.avx2.psrai.","llvm.x86.sse2.pslli.","llvm.x86.sse2.psrli.","llvm.x86.sse2.psrai."}) if(pre(p)){ string k(p); bool left=k.find("pslli")!=string::npos,ar=k.find("psrai")!=string::npos; W*c=wReduce(a[1].w,s.f); if(!isC(c)) unsupported("variable vector shift"); size_t N=a[0].v->size(); *ret=lanes([&](size_t i){ W*x=W_(a[0],i); u64 sh=c->c; if(sh>=x->w){ if(!ar) return mkConst(x->w,0); sh=x->w-1; } W*k2=mkConst(x->w,sh); return left?wShl(x,k2,s.f):ar?wAshr(x,k2,s.f):wLshr(x,k2,s.f); },N); return true; }
  for(const char*p:{"llvm.x86.avx2.psllv.","llvm.x86.avx2.psrlv.","llvm.x86.avx2.psrav."}) if(pre(p)){ string k(p); bool left=k.find("psllv")!=string::npos,ar=k.find("psrav")!=string::npos; size_t N=a[0].v->size(); *ret=lanes([&](size_t i){ W*x=W_(a[0],i),*c=wReduce(W_(a[1],i),s.f); if(!isC(c)) unsupported("variable vector shift"); u64 sh=c->c; if(sh>=x->w){ if(!ar) return mkConst(x->w,0); sh=x->w-1; } W*k2=mkConst(x->w,sh); return left?wShl(x,k2,s.f):ar?wAshr(x,k2,s.f):wLshr(x,k2,s.f); },N); return true; }
  if(pre("llvm.x86.avx2.pmovmskb")||pre("llvm.x86.sse2.pmovmskb")){ vector<Lit> b; for(auto&x:*a[0].v) b.push_back(bitsOf(x.w)[7]); while(b.size()<32) b.push_back(FALSE_); *ret=mkV(mkBits(32,b)); return true; }
  auto sat=[&](W*x,int w,bool uns){ // signed x to w bits saturated
    int W0=x->w; W*hi=mkConst(W0,uns?(1ull<<w)-1:(1ull<<(w-1))-1),*lo=mkConst(W0,uns?0:(u64)-(1ll<<(w-1))); Lit g=cSlt(hi,x,s.f),l=cSlt(x,lo,s.f); return wTrunc(wIte(g,hi,wIte(l,lo,x)),w); };
  for(auto&pr:vector<pair<string,bool>>{{"llvm.x86.avx2.packuswb",true},{"llvm.x86.avx2.packsswb",false},{"llvm.x86.avx2.packusdw",true},{"llvm.x86.avx2.packssdw",false},{"llvm.x86.sse2.packuswb.128",true},{"llvm.x86.sse2.packsswb.128",false}}) if(n==pr.first){ size_t M=a[0].v->size(); int w=W_(a[0],0)->w; size_t L=128/w; vector<Val> v; for(size_t b=0;b<M;b+=L){ for(size_t i=0;i<L;i++) v.push_back(mkV(sat(W_(a[0],b+i),w/2,pr.second))); for(size_t i=0;i<L;i++) v.push_back(mkV(sat(W_(a[1],b+i),w/2,pr.second))); } *ret=mkVec(move(v)); return true; }
  if(n=="llvm.x86.avx2.pmulhu.w"||n=="llvm.x86.avx2.pmulh.w"||n=="llvm.x86.sse2.pmulhu.w"||n=="llvm.x86.sse2.pmulh.w"){ bool u=n.find("hu")!=string::npos; *ret=lanes([&](size_t i){ W*x=W_(a[0],i),*y=W_(a[1],i); W*p=u?wMul(wZext(x,32,s.f),wZext(y,32,s.f),s.f):wMul(wSext(x,32,s.f),wSext(y,32,s.f),s.f); return wTrunc(wLshr(p,mkConst(32,16),s.f),16); },a[0].v->size()); return true; }
  if(n=="llvm.x86.avx2.pmadd.wd"){ *ret=lanes([&](size_t i){ auto m=[&](size_t k){ return wMul(wSext(W_(a[0],k),32,s.f),wSext(W_(a[1],k),32,s.f),s.f); }; return wAdd(m(2*i),m(2*i+1)); },a[0].v->size()/2); return true; }
  if(n=="llvm.x86.avx2.psad.bw"){ *ret=lanes([&](size_t i){ W*acc=mkConst(64,0); for(size_t k=0;k<8;k++){ W*x=W_(a[0],8*i+k),*y=W_(a[1],8*i+k); Lit c=cUlt(x,y,s.f); acc=wAdd(acc,wZext(wIte(c,wSub(y,x),wSub(x,y)),64,s.f)); } return acc; },4); return true; }
  (void)rt; return false; }
