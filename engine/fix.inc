// Loops without a fixed trip count: post-fixpoint of an abstract head state.
// Head state: loop counters as init + d*K with one shared K, other header variables as intervals, memory written by the loop
// replaced by arbitrary content of the recorded value range inside the recorded offset interval ("class").
// A pass executes the body once from the head; the head is accepted when it covers every state that reaches the back edge.
struct FCls { int rid; W*inv; i128 lo,hi; bool vAny; u64 vlo,vhi; u32 attr,es; };
struct FPh { int idx; int kind; i64 d; i128 lo,hi; W*pbase; int w; Val init; u32 attr; W*head; W*hatom; }; // kind 0 invariant, 1 counter, 2 interval, 3 arbitrary vector
static Range valRange(W*w,Fact*f){ if(isC(w)){ i128 v=w->w>=64?(i128)(i64)w->c: (w->w>8&&(w->c>>(w->w-1)&1))? (i128)w->c-((i128)1<<w->w): (i128)w->c; return {v,v}; } return rangeOf(wReduce(w,f),f); }
static void arrRange(Arr*a,u32 es,u64&lo,u64&hi){ u64 m=es>=8?~0ULL:(1ULL<<(8*es))-1; switch(a->k){ case A_CONSTB: { u64 v=0; for(u32 i=0;i<es;i++) v|=(u64)a->cb<<(8*i); lo=hi=v; return; } case A_BASE: if(a->elem==es){ lo=a->elo; hi=a->ehi; return; } break; case A_ITE: { u64 l,h; arrRange(a->a,es,lo,hi); arrRange(a->b,es,l,h); lo=min(lo,l); hi=max(hi,h); return; } default: break; } lo=0; hi=m; }
static void blobRange(const Blob&b,u32 es,Fact*f,bool&any,u64&lo,u64&hi,u32&attr){ u64 m=es>=8?~0ULL:(1ULL<<(8*es))-1; any=false; lo=~0ULL; hi=0; 
  auto put=[&](u64 l,u64 h){ any=true; lo=min(lo,l); hi=max(hi,h); };
  for(auto&p:b){ if(p.arr){ u64 l,h; arrRange(p.arr,es,l,h); put(l,h); attr|=p.arr->attr; continue; }
    if(es>1&&p.n%es){ put(0,m); attr|=blobAttr({p}); continue; }
    for(u64 i=0;i<p.n;i+=es){ vector<W*> v; for(u32 k=0;k<es;k++) v.push_back((*p.cells)[p.cs+i+k]); W*w=wReduce(es==1?v[0]:wConcat(v),f); u64 l,h; if(es==8){ PD d=decodePtr(w); if(d.rid>0){ put(0,m); attr|=w->attr; continue; } } if(w->k==W_OP&&w->op==OP_ITE){ u64 l2,h2; urange(w->a[0],f,l,h); urange(w->a[1],f,l2,h2); l=min(l,l2); h=max(h,h2); u64 l3,h3; urange(w,f,l3,h3); l=max(l,l3); h=min(h,h3); } else urange(w,f,l,h); put(l,h); attr|=w->attr; } } }
static u32 regEs(int rid){ u32 e=Regs[rid].esz; return (!Regs[rid].eszBad&&(e==1||e==2||e==4||e==8))?e:1; }
struct FRec { u32 mark; int nreg; vector<FCls> w; bool symReg=false; };
static vector<FRec*> fixRecs;
static W* linInv(const LinF&l,u32 mark,LinF&var){ vector<pair<W*,i64>> t; var.c=l.c; var.t.clear(); for(auto&p:l.t){ if(p.first->id<mark) t.push_back(p); else var.t.push_back(p); } return mkLin(64,0,t); }
static void fixRecord(State&s,int rid,W*off,const Blob&b,W*len,u32 esz){
  for(auto*r:fixRecs){ if(rid>=r->nreg) continue; FCls c; c.rid=rid; c.es=(esz==1||esz==2||esz==4||esz==8)?esz:regEs(rid); if(!isC(Regs[rid].size)){ r->symReg=true; }
    LinF l=toLin(off); if(!isC(off)){ u64 a,z; if(urange(wReduce(off,s.f),s.f,a,z)&&a==z){ l.c=a; l.t.clear(); } } LinF v; c.inv=linInv(l,r->mark,v); Range q=linRange(v,s.f); Range n; if(isC(len)) n={(i128)len->c,(i128)len->c}; else n=linRange(toLin(len),s.f);
    c.lo=q.lo; c.hi=q.hi+n.hi; i128 big=(i128)1<<40; if(c.lo<-big||c.hi>big){ c.inv=C64(0); u64 a=0,z=0; bool ok=urange(wReduce(off,s.f),s.f,a,z); c.lo=ok?a:0; c.hi=ok?(i128)z+n.hi:big; if(c.hi>big) c.hi=big; }
    if(isC(c.inv)&&isC(Regs[rid].size)){ if(c.lo<0) c.lo=0; if(c.hi>(i128)Regs[rid].size->c) c.hi=Regs[rid].size->c; }
    c.attr=0; blobRange(b,c.es,s.f,c.vAny,c.vlo,c.vhi,c.attr); if(c.hi>c.lo) r->w.push_back(c); } }
static void clsMerge(FCls&a,const FCls&b){ a.lo=min(a.lo,b.lo); a.hi=max(a.hi,b.hi); if(a.es!=b.es){ a.es=1; a.vlo=0; a.vhi=255; a.vAny=true; } else { if(b.vAny){ if(a.vAny){ a.vlo=min(a.vlo,b.vlo); a.vhi=max(a.vhi,b.vhi); } else { a.vlo=b.vlo; a.vhi=b.vhi; a.vAny=true; } } } a.attr|=b.attr; }
static vector<FCls> clsGroup(vector<FCls> in,Fact*f){ vector<FCls> out; for(auto&c:in){ FCls x=c; for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<out.size();i++) if(out[i].rid==x.rid&&out[i].inv==x.inv&&x.lo<out[i].hi&&out[i].lo<x.hi){ FCls o=out[i]; out.erase(out.begin()+i); clsMerge(x,o); ch=true; break; } } out.push_back(x); }
  // different invariant parts in one object: provably disjoint, or one class over everything
  map<int,vector<int>> by; for(size_t i=0;i<out.size();i++) by[out[i].rid].push_back(i); vector<char> del(out.size()); vector<FCls> add;
  for(auto&p:by){ auto&v=p.second; bool bad=false; for(size_t i=0;i<v.size()&&!bad;i++) for(size_t j=i+1;j<v.size()&&!bad;j++){ FCls&a=out[v[i]],&b=out[v[j]]; if(a.inv==b.inv) continue; LinF d=toLin(a.inv); LinF m=toLin(b.inv); for(auto&t:m.t) d.t.push_back({t.first,-t.second}); d.c-=m.c; sort(d.t.begin(),d.t.end(),[](auto&x,auto&y){return x.first->id<y.first->id;}); vector<pair<W*,i64>> nt; for(auto&t:d.t){ if(!nt.empty()&&nt.back().first==t.first) nt.back().second+=t.second; else nt.push_back(t); } d.t.clear(); for(auto&t:nt) if(t.second) d.t.push_back(t); Range r=linRange(d,f); if(!(r.lo+a.lo>=b.hi||r.hi+a.hi<=b.lo)) bad=true; }
    if(bad){ FCls x; bool first=true; for(int i:v){ FCls c=out[i]; Range r=linRange(toLin(c.inv),f); c.lo+=r.lo; c.hi+=r.hi; c.inv=C64(0); if(isC(Regs[c.rid].size)){ if(c.lo<0) c.lo=0; if(c.hi>(i128)Regs[c.rid].size->c) c.hi=Regs[c.rid].size->c; } if(first) x=c; else clsMerge(x,c); first=false; del[i]=1; } add.push_back(x); } }
  vector<FCls> res; for(size_t i=0;i<out.size();i++) if(!del[i]) res.push_back(out[i]); for(auto&x:add) res.push_back(x); return res; }
static bool clsCover(const vector<FCls>&h,const vector<FCls>&r){ for(auto&x:r){ bool ok=false; for(auto&a:h) if(a.rid==x.rid&&a.inv==x.inv&&a.lo<=x.lo&&x.hi<=a.hi&&((a.es==1&&a.vAny&&a.vlo==0&&a.vhi==255)||(a.es==x.es&&(!x.vAny||(a.vAny&&a.vlo<=x.vlo&&x.vhi<=a.vhi))))&&!(x.attr&~a.attr)) ok=true; if(!ok) return false; } return true; }
static map<Arr*,Blob> permOf; static map<Arr*,W*> weightOf; // array is an exchange-permutation of that content / has that number of nonzero bytes
static u64 fixLoops=0,fixPasses=0;
static LinF linDiff(const LinF&a,const LinF&b,i64 k=1){ LinF d; d.c=a.c-k*b.c; d.t=a.t; for(auto&t:b.t) d.t.push_back({t.first,-k*t.second}); sort(d.t.begin(),d.t.end(),[](auto&x,auto&y){return x.first->id<y.first->id;}); vector<pair<W*,i64>> nt; for(auto&t:d.t){ if(!nt.empty()&&nt.back().first==t.first) nt.back().second+=t.second; else nt.push_back(t); } d.t.clear(); for(auto&t:nt) if(t.second) d.t.push_back(t); return d; }
struct FChain { W*start,*cur; bool guarded; bool cst; u64 n; vector<pair<W*,u64>> pts; }; // pts: position before each entry, its length
static bool sameSegs(const RegC&h,const RegC&c){ auto i=h.segs.begin(),j=c.segs.begin(); u64 a=0,b=0; // equal contents, however the segments are divided
  for(;;){ bool ei=i==h.segs.end(),ej=j==c.segs.end(); if(ei||ej) return ei&&ej; const Piece&p=i->second,&q=j->second; if(p.sn||q.sn||i->first+a!=j->first+b) return false; u64 n=min(p.n-a,q.n-b); if((p.arr!=nullptr)!=(q.arr!=nullptr)) return false;
    if(p.arr){ if(p.arr!=q.arr) return false; if(!(p.off==q.off&&a==b)){ LinF d=linDiff(toLin(p.off),toLin(q.off)); if(d.t.size()||d.c+(i64)a-(i64)b!=0) return false; } }
    else { if(!p.cells||!q.cells) return false; if(!(p.cells==q.cells&&p.cs+a==q.cs+b)) for(u64 k=0;k<n;k++) if((*p.cells)[p.cs+a+k]!=(*q.cells)[q.cs+b+k]) return false; }
    a+=n; b+=n; if(a==p.n){ ++i; a=0; } if(b==q.n){ ++j; b=0; } } }
static bool logTail(const RegC&h,const RegC&c,size_t&n0,bool&segsSame){ n0=h.log.size(); if(c.log.size()<n0) return false; for(size_t i=0;i<n0;i++) if(h.log[i].serial!=c.log[i].serial) return false; segsSame=h.sym==c.sym&&sameSegs(h,c); return true; }
static void chainsOf(const RegC&c,size_t n0,vector<FChain>&out){ for(size_t k=n0;k<c.log.size();k++){ const LogE&e=c.log[k]; W*step=e.g==TRUE_? e.len: isC(e.len)? wMulC(wZext(litW(e.g),64,nullptr),e.len->c): wIte(e.g,e.len,C64(0)); bool f=false; for(auto&h:out) if(h.cur==e.off||[&]{ LinF d=linDiff(toLin(h.cur),toLin(e.off)); return d.t.empty()&&d.c==0; }()){ h.pts.push_back({h.cur,isC(e.len)?e.len->c:~0ULL}); h.cur=wAdd(h.cur,step); if(e.g!=TRUE_) h.guarded=true; if(!isC(e.len)) h.cst=false; else h.n+=e.len->c; f=true; break; } if(!f) out.push_back({e.off,wAdd(e.off,step),e.g!=TRUE_,isC(e.len),isC(e.len)?e.len->c:0,{{e.off,isC(e.len)?e.len->c:~0ULL}}}); } }
static void runFix(FnInfo*fi,Loop*L,State&&s0,vector<Exit>&exits){
  BasicBlock*H=L->getHeader(); State init=move(s0); Instruction*svI=curI; fixLoops++;
  u32 mark=mkHavoc(64,"mark",0,1)->id; int nreg=Regs.size(); W*K=nullptr; const i128 BIG=(i128)1<<40; i128 kmax=BIG; bool haveK=false,kNarrowed=false; i128 kcap_=0;
  vector<FPh> ph; vector<FCls> cls; set<i128> thr; 
  for(auto*B:L->blocks()) for(auto&I:*B){ auto addC=[&](Value*v){ if(auto*c=dyn_cast<llvm::ConstantInt>(v)){ i128 x=c->getBitWidth()<=64?(i128)c->getSExtValue():0; thr.insert(x-1); thr.insert(x); thr.insert(x+1); i128 z=c->getBitWidth()<=64?(i128)c->getZExtValue():0; thr.insert(z); } else if(!isa<llvm::Constant>(v)){ auto it=fi->idx.find(v); if(it!=fi->idx.end()){ W*w=init.regs[it->second].w; if(w&&isC(w)){ i128 x=(i128)(i64)w->c; thr.insert(x-1); thr.insert(x); thr.insert(x+1); } } } };
      if(auto*ci=dyn_cast<llvm::ICmpInst>(&I)){ addC(ci->getOperand(0)); addC(ci->getOperand(1)); } if(auto*sw=dyn_cast<llvm::SwitchInst>(&I)) for(auto&c:sw->cases()) addC(c.getCaseValue()); }
  for(i128 x:{(i128)0,(i128)1,(i128)126,(i128)127,(i128)255,(i128)65535,((i128)1<<31)-1,((i128)1<<32)-1,(i128)1<<40}) thr.insert(x);
  auto up=[&](i128 x){ auto it=thr.lower_bound(x); return it==thr.end()?((i128)1<<62):*it; }; auto down=[&](i128 x){ auto it=thr.upper_bound(x); if(it==thr.begin()) return -((i128)1<<31); --it; return *it; };
  State head; vector<map<int,RP>> dummy; map<int,RP> headMem;
  auto build=[&](){ head=init; headMem.clear(); K=nullptr; if(haveK){ K=mkHavoc(64,"iterations",0,kmax); }
    for(auto&p:ph){ Val v=p.init; p.head=p.init.w; p.hatom=nullptr;
      if(p.kind==1){ v.w=wAdd(p.init.w,mkLin(p.w,0,{{K,p.d}})); p.head=v.w; }
      else if(p.kind==2){ if(p.pbase){ W*h=mkHavoc(64,"loopvar",0,p.hi-p.lo,p.attr); v.w=wAdd(p.pbase,mkLin(64,(i64)p.lo,{{h,1}})); p.hatom=h; } else { W*h=mkHavoc(p.w,"loopvar",0,p.hi-p.lo,p.attr); v.w=p.hi==p.lo?mkConst(p.w,(u64)p.lo&maskw(p.w)):p.lo==0?h:mkLin(p.w,(i64)p.lo,{{h,1}}); p.hatom=h; } p.head=v.w; }
      else if(p.kind==3){ function<Val(const Val&)> hv=[&](const Val&x)->Val{ if(x.w) return mkV(mkHavoc(x.w->w,"loopvec",0,x.w->w>=64?(i128)~0ULL:(i128)maskw(x.w->w),p.attr)); vector<Val> o; for(auto&y:*x.v) o.push_back(hv(y)); return mkVec(move(o)); }; v=hv(p.init); }
      head.regs[p.idx]=v; }
    for(auto&c:cls){ FCls x=c; if(!findReg(head,c.rid)) continue; W*off=wAdd(c.inv,C64((u64)(i64)c.lo)); W*len=C64((u64)(c.hi-c.lo)); Blob b=readMem(init,c.rid,off,len); u32 es=c.es; bool al=(c.lo%es==0)&&((c.hi-c.lo)%es==0); { LinF l=toLin(c.inv); for(auto&t:l.t) if(t.second%(i64)es) al=false; if(l.c%(i64)es) al=false; }
      u64 m=es>=8?~0ULL:(1ULL<<(8*es))-1; u64 lo=c.vlo,hi=c.vhi; u32 attr=c.attr; { bool any; u64 l,h; blobRange(b,es,init.f,any,l,h,attr); if(any){ if(c.vAny){ lo=min(lo,l); hi=max(hi,h); } else { lo=l; hi=h; } } } if(!al){ es=1; lo=0; hi=255; } (void)m;
      Arr*a=mkBase("loop:"+Regs[c.rid].name,es,lo,hi,attr,true); writeMem(head,c.rid,off,{runP(a,C64(0),len->c)},len,es); }
    for(auto&p:head.mem) headMem[p.first]=p.second; };
  auto pass=[&](Region&R){ fixPasses++; struct JH{ bool o=joinHulls; JH(){ joinHulls=true; } ~JH(){ joinHulls=o; } } jh; FRec rec; rec.mark=mark; rec.nreg=nreg; fixRecs.push_back(&rec); State cur=head; try{ map<BasicBlock*,vector<State>> p2; execBlock(R,p2,H,move(cur)); runRegion(R,p2); } catch(...){ fixRecs.pop_back(); throw; } fixRecs.pop_back(); if(rec.symReg) unsupported("fixpoint over an object of symbolic size"); return rec.w; };
  // round 0 from the initial values
  { OblSnap os=oblSave(); head=init; Region R{fi,L}; auto w=pass(R); if(R.backs.empty()){ for(auto&e:R.exits) exits.push_back(move(e)); curI=svI; return; } oblRestore(os);
    for(int i:fi->phis[H]){ FPh p; p.idx=i; p.init=init.regs[i]; p.kind=0; p.d=0; p.pbase=nullptr; p.attr=0; p.w=p.init.w?p.init.w->w:0; p.lo=p.hi=0; bool same=true; for(auto&b:R.backs) if(!(b.regs[i]==p.init)) same=false;
      if(!same){ if(!p.init.w) p.kind=3; else { bool ind=true; i64 d=0; bool f=true; for(auto&b:R.backs){ W*q=b.regs[i].w?wSub(b.regs[i].w,p.init.w):nullptr; if(!q||!isC(q)){ ind=false; break; } i64 v=p.w>=64?(i64)q->c: (q->c>>(p.w-1)&1)?(i64)q->c-(i64)(1ULL<<p.w):(i64)q->c; if(!f&&v!=d) ind=false; d=v; f=false; } 
          if(ind&&d&&p.w>=8){ p.kind=1; p.d=d; } else p.kind=2; } }
      ph.push_back(p); }
    auto kcap=[&](){ i128 b=BIG; for(auto&p:ph) if(p.kind==1){ Range r= p.w==64&&decodePtr(p.init.w).rid>0? Range{0,0}: valRange(p.init.w,init.f); i128 mx=p.w>=32?((i128)1<<(p.w-1))-1:((i128)1<<p.w)-1, mn=p.w>=32?-((i128)1<<(p.w-1)):0; i128 k=p.d>0?(mx-r.hi)/p.d:(r.lo-mn)/(-(i128)p.d); if(k<0) k=0; b=min(b,k); } return b; };
    for(auto&p:ph) if(p.kind==1) haveK=true;
    kmax=kcap(); kcap_=kcap();
    for(auto&p:ph) if(p.kind==2){ // interval from init and first back values
        PD d=p.w==64?decodePtr(p.init.w):PD{0,nullptr}; if(p.w==64&&d.rid>0){ p.pbase=Regs[d.rid].base; Range r=rangeOf(wReduce(d.off,init.f),init.f); p.lo=r.lo; p.hi=r.hi; } else { Range r=valRange(p.init.w,init.f); p.lo=r.lo; p.hi=r.hi; } p.attr=p.init.w->attr;
        for(auto&b:R.backs){ W*w=b.regs[p.idx].w; if(!w) unsupported("loop variable"); W*x=w; if(p.pbase){ PD q=decodePtr(wReduce(w,b.f)); if(q.rid<=0||Regs[q.rid].base!=p.pbase) unsupported("loop pointer changes its object in "+fi->F->getName().str()); x=q.off; } Range r=valRange(x,b.f); p.lo=min(p.lo,r.lo); p.hi=max(p.hi,r.hi); p.attr|=wReduce(w,b.f)->attr; } }
    cls=clsGroup(w,init.f); }
  Region R{fi,L}; vector<FCls> recd; 
  auto fullLo=[&](FPh&p){ return p.w>=64?-((i128)1<<40):p.w==1?0:-((i128)1<<(p.w-1)); }; auto fullHi=[&](FPh&p){ return p.w>=64?((i128)1<<40):((i128)1<<p.w)-1; };
  auto clampR=[&](FPh&p){ if(p.lo<fullLo(p)||p.hi>fullHi(p)||p.hi-p.lo>=((i128)1<<min(p.w,62))){ if(p.w<64){ p.lo=0; p.hi=(i128)maskw(p.w); } else if(p.pbase) unsupported("unbounded loop pointer in "+fi->F->getName().str()); else { p.lo=0; p.hi=(i128)~0ULL; } } };
  for(auto&p:ph) if(p.kind==2) clampR(p);
  bool done=false; int it=0;
  for(;it<40&&!done;it++){ build(); bool narrowed=false; OblSnap os=oblSave(); R=Region{fi,L}; recd=clsGroup(pass(R),init.f); bool stable=true;
    i128 need=0; bool anyFull=false;
    for(auto&b:R.backs){ if(haveK){ Range r=linRange(toLin(K),b.f); need=max(need,r.hi+1); }
      for(auto&p:ph){ Val&v=b.regs[p.idx]; if(p.kind==0){ if(!(v==p.init)&&!(v.w&&p.init.w&&linDiff(toLin(v.w),toLin(p.init.w)).t.empty()&&linDiff(toLin(v.w),toLin(p.init.w)).c==0)){ stable=false; if(!v.w) p.kind=3; else { p.kind=2; PD d=p.w==64?decodePtr(p.init.w):PD{0,nullptr}; if(d.rid>0){ p.pbase=Regs[d.rid].base; Range r=rangeOf(wReduce(d.off,init.f),init.f); p.lo=r.lo; p.hi=r.hi; } else { Range r=valRange(p.init.w,init.f); p.lo=r.lo; p.hi=r.hi; } } } }
        if(p.kind==1){ W*q=wSub(v.w,p.head); i64 x=isC(q)?(p.w>=64?(i64)q->c:(q->c>>(p.w-1)&1)?(i64)q->c-(i64)(1ULL<<p.w):(i64)q->c):0; if(!isC(q)||x!=p.d){ stable=false; p.kind=2; PD d=p.w==64?decodePtr(p.init.w):PD{0,nullptr}; if(d.rid>0){ p.pbase=Regs[d.rid].base; Range r=rangeOf(wReduce(d.off,init.f),init.f); p.lo=r.lo; p.hi=r.hi; } else { Range r=valRange(p.init.w,init.f); p.lo=r.lo; p.hi=r.hi; } } }
        if(p.kind==2){ if(!v.w) unsupported("loop variable"); W*x=v.w; if(p.pbase){ PD q=decodePtr(wReduce(v.w,b.f)); if(q.rid<=0||Regs[q.rid].base!=p.pbase) unsupported("loop pointer changes its object in "+fi->F->getName().str()); x=q.off; } Range r=valRange(x,b.f); u32 at=wReduce(v.w,b.f)->attr; if(r.lo<p.lo||r.hi>p.hi||(at&~p.attr)){ stable=false; p.attr|=at; if(r.lo<p.lo) p.lo=it<1?r.lo:down(r.lo); if(r.hi>p.hi) p.hi=it<1?r.hi:up(r.hi); clampR(p); } }
        if(p.kind==3){ u32 at=0; function<void(const Val&)> av=[&](const Val&x){ if(x.w) at|=x.w->attr; else for(auto&y:*x.v) av(y); }; av(v); if(at&~p.attr){ p.attr|=at; stable=false; } } } }
    (void)anyFull; { bool k=false; for(auto&p:ph) if(p.kind==1) k=true; if(haveK&&!k&&!stable) haveK=false; }
    auto toIV=[&](FPh&p){ p.kind=2; p.pbase=nullptr; PD d=p.w==64?decodePtr(p.init.w):PD{0,nullptr}; if(d.rid>0){ p.pbase=Regs[d.rid].base; Range r=rangeOf(wReduce(d.off,init.f),init.f); p.lo=r.lo; p.hi=r.hi; } else { Range r=valRange(p.init.w,init.f); p.lo=r.lo; p.hi=r.hi; } };
    if(haveK&&stable){ if(need<kmax&&!kNarrowed&&need>=0){ kmax=need; stable=false; narrowed=true; } else if(need>kmax&&kmax<BIG){ if(kmax<kcap_){ i128 u=up(need); kmax=min(u,kcap_); stable=false; } else { bool k=false; for(auto&p:ph) if(p.kind==1){ if(p.w<64) toIV(p); else k=true; } haveK=k; kmax=kcap_=BIG; stable=false; } } kNarrowed=true; }
    if(!narrowed&&!clsCover(cls,recd)){ stable=false; vector<FCls> j=cls; for(auto&x:recd) j.push_back(x); vector<FCls> n=clsGroup(j,init.f);
      if(it>=2) for(auto&x:n){ bool grew=true; for(auto&o:cls) if(o.rid==x.rid&&o.inv==x.inv&&o.lo==x.lo&&o.hi==x.hi&&o.vlo==x.vlo&&o.vhi==x.vhi) grew=false; if(grew&&x.vAny){ u64 m=x.es>=8?~0ULL:(1ULL<<(8*x.es))-1; i128 u=up(x.vhi); x.vhi=u>(i128)m?m:(u64)u; x.vlo=0; } if(grew&&it>=6&&isC(x.inv)&&isC(Regs[x.rid].size)){ x.lo=0; x.hi=Regs[x.rid].size->c; } }
      cls=clsGroup(n,init.f); }
    if(getenv("AI_FIXDBG")){ fprintf(stderr,"[fix %s it=%d stable=%d kmax=%lld backs=%zu exits=%zu]",fi->F->getName().str().c_str(),it,stable,(long long)kmax,R.backs.size(),R.exits.size()); for(auto&p:ph) fprintf(stderr," phi%d:k%d[%lld,%lld]d%lld",p.idx,p.kind,(long long)p.lo,(long long)p.hi,(long long)p.d); for(auto&c:cls) fprintf(stderr," | %s+%s [%lld,%lld) v%d %llu..%llu a%u es%u",Regs[c.rid].name.c_str(),wStr(c.inv,2).c_str(),(long long)c.lo,(long long)c.hi,c.vAny,(unsigned long long)c.vlo,(unsigned long long)c.vhi,c.attr,c.es); fprintf(stderr,"\n"); }
    if(stable){ done=true; break; } oblRestore(os); }
  if(!done) unsupported("no fixpoint found for a loop of "+fi->F->getName().str());
  // what the loop is known to have written completely
  struct Fill { int rid; LinF alpha; bool viaK; int pi; i64 e; W*start; bool contiguous; u64 n; bool affine=false; i64 vc=0,vd=0; }; vector<Fill> fills; map<int,bool> exact;
  for(auto&hm:headMem){ int rid=hm.first; bool touched=false; for(auto&c:recd) if(c.rid==rid) touched=true; if(!touched||R.backs.empty()) continue; RegC&hc=*hm.second; vector<vector<FChain>> bc; bool ok=true; bool ex=true;
    for(auto&b:R.backs){ RP*q=findReg(b,rid); size_t n0; bool ss; if(!q||!logTail(hc,**q,n0,ss)){ ok=false; break; } if(!ss) ex=false; vector<FChain> v; chainsOf(**q,n0,v); bc.push_back(v); }
    for(auto&e:R.exits){ RP*q=findReg(e.s,rid); size_t n0; bool ss; if(q&&(!logTail(hc,**q,n0,ss)||!ss)) ex=false; }
    if(!ok){ exact[rid]=false; continue; }
    if(getenv("AI_FIXDBG")) for(auto&v:bc){ fprintf(stderr,"  [chains %s ex=%d]",Regs[rid].name.c_str(),ex); for(auto&c:v) fprintf(stderr," {%s -> %s g%d n%llu}",wStr(c.start,3).c_str(),wStr(c.cur,3).substr(0,150).c_str(),c.guarded,(unsigned long long)c.n); fprintf(stderr,"\n"); }
    set<W*> valid; for(auto&c0:bc[0]){ LinF st=toLin(c0.start); bool good=true; Fill F; F.rid=rid; F.start=c0.start; F.pi=-1; F.viaK=false;
      i64 D=0; vector<pair<W*,i64>> nv; for(auto&t:st.t){ if(t.first->id>=mark) nv.push_back(t); } if(nv.size()!=1) continue; D=nv[0].second; W*at=nv[0].first; if(D<=0) continue; F.e=D;
      if(at==K) F.viaK=true; else { for(size_t i=0;i<ph.size();i++) if(ph[i].kind==2&&ph[i].hatom==at) F.pi=i; if(F.pi<0) continue; }
      F.alpha=st; F.alpha.t.clear(); for(auto&t:st.t) if(t.first->id<mark) F.alpha.t.push_back(t); // start = alpha + D*atom
      F.contiguous=true; F.n=c0.n; 
      for(size_t k=0;k<bc.size()&&good;k++){ const FChain*c=nullptr; for(auto&x:bc[k]) if(x.start==c0.start) c=&x; if(!c){ good=false; break; }
        LinF adv=linDiff(toLin(c->cur),st); // advance over the iteration
        if(F.viaK){ if(adv.t.empty()&&adv.c==D) {} else if(!c->guarded&&c->cst&&(i64)c->n<D&&adv.t.empty()&&adv.c==(i64)c->n){ F.contiguous=false; if(c->n!=F.n) good=false; } else good=false; }
        else { FPh&p=ph[F.pi]; W*bv=R.backs[k].regs[p.idx].w; LinF pb=toLin(p.pbase?decodePtr(bv).off:bv); // phi = lo + atom (plus region base): advance must equal D*(phi_back - lo - atom)
          LinF want=pb; want.c-=(i64)p.lo; want=linDiff(want,LinF{0,{{at,1}}}); LinF z=linDiff(adv,want,D); if(!(z.t.empty()&&z.c==0)) good=false; } }
      if(good&&F.viaK&&(F.n==1||F.n==2||F.n==4||F.n==8)){ F.affine=true; bool first=true; for(size_t k=0;k<bc.size();k++){ for(auto&x:bc[k]) if(x.start==c0.start&&x.pts.size()!=1) F.affine=false; RP*q=findReg(R.backs[k],rid); for(size_t j=hc.log.size();j<(*q)->log.size();j++){ LogE&e=(*q)->log[j]; if(e.off!=c0.start) continue; W*v=wReduce(elemVal(e.c,F.n,R.backs[k].f),R.backs[k].f); LinF l=toLin(v); i64 d=0; for(auto&t:l.t) if(t.first==K) d=t.second; else F.affine=false; if(e.g!=TRUE_) F.affine=false; if(first){ F.vc=l.c; F.vd=d; first=false; } else if(F.vc!=l.c||F.vd!=d) F.affine=false; } } if(first) F.affine=false; }
      if(good){ fills.push_back(F); valid.insert(c0.start); } }
    for(auto&v:bc) for(auto&c:v) if(!valid.count(c.start)) ex=false;
    for(auto&e:R.exits){ RP*q=findReg(e.s,rid); if(!q) continue; vector<FChain> v; chainsOf(**q,hc.log.size(),v); for(auto&c:v) if(!valid.count(c.start)) ex=false; }
    if(getenv("AI_FIXDBG")) fprintf(stderr,"  [fill %s valid=%zu exact=%d]\n",Regs[rid].name.c_str(),valid.size(),ex); exact[rid]=ex; }
  // exchange-only and counted-nonzero objects
  map<int,bool> isPerm; map<int,int> wtPhi,wtSign; map<int,FCls*> oneCls; { map<int,int> cnt; for(auto&c:cls){ cnt[c.rid]++; oneCls[c.rid]=&c; } for(auto&p:cnt) if(p.second!=1) oneCls.erase(p.first); }
  auto elemAt=[&](State&st,RP mem,int rid,W*off,u32 es){ State t; t.f=st.f; t.mem.push_back({rid,mem}); return wReduce(elemVal(readMem(t,rid,off,C64(es)),es,st.f),st.f); };
  auto permOk=[&](State&st,int rid){ RP*q=findReg(st,rid); RP hc=headMem[rid]; size_t n0; bool ss; if(!q||!logTail(*hc,**q,n0,ss)||!ss) return false; size_t n=(*q)->log.size()-n0; if(n==0) return true; if(n%2) return false; 
    for(size_t i=n0;i+1<(*q)->log.size();i+=2){ LogE&a=(*q)->log[i],&b=(*q)->log[i+1]; u32 es=oneCls[rid]->es; if(a.g!=b.g||!isC(a.len)||!isC(b.len)||a.len->c!=es||b.len->c!=es) return false; RP before=make_shared<RegC>(*hc); before->log.assign((*q)->log.begin(),(*q)->log.begin()+i); before->chain=0; State t; t.f=a.g==TRUE_?st.f:factAssume(st.f,a.g,true); if(!t.f) continue; W*va=wReduce(elemVal(a.c,es,t.f),t.f),*vb=wReduce(elemVal(b.c,es,t.f),t.f); if(va!=elemAt(t,before,rid,b.off,es)||vb!=elemAt(t,before,rid,a.off,es)) return false; } return true; };
  auto weightStep=[&](State&st,int rid,W*&inc){ RP*q=findReg(st,rid); RP hc=headMem[rid]; size_t n0; bool ss; inc=C64(0); if(!q||!logTail(*hc,**q,n0,ss)||!ss) return false; size_t n=(*q)->log.size()-n0; if(n==0) return true; if(n>1) return false; LogE&a=(*q)->log[n0]; if(!isC(a.len)||a.len->c!=1) return false; Fact*f=a.g==TRUE_?st.f:factAssume(st.f,a.g,true); if(!f) return true; State t; t.f=f; W*old=elemAt(t,hc,rid,a.off,1); if(!(isC(old)&&old->c==0)){ u64 l,h; urange(old,f,l,h); if(h!=0) return false; }
    W*v=wReduce(elemVal(a.c,1,f),f); Lit nz=mkAnd(a.g,NOT(cEq(v,mkConst(8,0),f))); inc=wZext(litW(litReduce(nz,st.f)),64,nullptr); return true; };
  for(auto&oc:oneCls){ int rid=oc.first; if(!findReg(init,rid)) continue; bool pk=!R.backs.empty(); for(auto&b:R.backs) if(!permOk(b,rid)) pk=false; for(auto&e:R.exits) if(pk&&findReg(e.s,rid)&&!permOk(e.s,rid)) pk=false; isPerm[rid]=pk;
    if(!pk&&oc.second->es==1&&isC(oc.second->inv)){ for(size_t i=0;i<ph.size();i++) if((ph[i].kind==2)&&!ph[i].pbase&&ph[i].hatom&&!wtPhi.count(rid)) for(int sg:{1,-1}){ bool ok=!R.backs.empty(); for(auto&b:R.backs){ W*inc; if(!weightStep(b,rid,inc)){ ok=false; break; } LinF d=linDiff(toLin(b.regs[ph[i].idx].w),toLin(ph[i].head)); LinF z=linDiff(d,toLin(wReduce(inc,b.f)),sg); if(!(z.t.empty()&&z.c==0)){ Range r=linRange(z,b.f); if(r.lo!=0||r.hi!=0){ ok=false; break; } } } if(ok){ wtPhi[rid]=i; wtSign[rid]=sg; break; } } } }
  map<pair<int,pair<int,int>>,Arr*> fillArr; map<int,Arr*> permArr;
  for(auto&e:R.exits){ State&s=e.s; set<int> fixidx=fi->phis[H]; if(e.to) for(int i:fi->phis[e.to]) fixidx.insert(i);
    i128 kc=-1; if(haveK){ Range r=linRange(toLin(K),s.f); if(r.lo==r.hi) kc=r.lo; }
    map<int,vector<pair<Fill*,pair<W*,W*>>>> todo; map<int,bool> full; // start,len
    for(auto&F:fills){ RP*q=findReg(s,F.rid); if(!q) continue; if(!full.count(F.rid)) full[F.rid]=exact[F.rid]; W*S=mkLin(64,F.alpha.c,F.alpha.t); size_t n0=headMem[F.rid]->log.size(); vector<FChain> v; size_t nn; bool ss; if(!logTail(*headMem[F.rid],**q,nn,ss)){ full[F.rid]=false; continue; } chainsOf(**q,n0,v); FChain*c=nullptr; for(auto&x:v) if(x.start==F.start) c=&x;
      if(F.viaK){ if(F.contiguous){ LinF end=toLin(c?c->cur:F.start); W*len=wReduce(mkLin(64,linDiff(end,F.alpha).c,linDiff(end,F.alpha).t),s.f); if(kc>=0&&!c) len=C64((u64)(kc*F.e)); todo[F.rid].push_back({&F,{S,len}}); }
        else { if(kc<0||kc>3000||c) { full[F.rid]=false; if(kc<0||kc>3000) continue; } todo[F.rid].push_back({&F,{S,C64((u64)kc)}}); } }
      else { FPh&p=ph[F.pi]; // start at phi = init
        LinF i0=toLin(p.pbase?decodePtr(p.init.w).off:p.init.w); i0.c-=(i64)p.lo; LinF a=F.alpha; a=linDiff(a,i0,-F.e); W*S2=mkLin(64,a.c,a.t); LinF end=toLin(c?c->cur:F.start); LinF ln=linDiff(end,a); Range r=linRange(ln,s.f); if(c&&c->cst){ i128 rest=0; for(size_t j=c->pts.size();j-->0;){ rest+=c->pts[j].second; Range y=linRange(linDiff(toLin(c->pts[j].first),a),s.f); if(y.hi+rest<r.hi) r.hi=y.hi+rest; if(y.lo>r.lo) r.lo=y.lo; } } W*len=r.lo==r.hi?C64((u64)r.lo):mkLin(64,ln.c,ln.t); todo[F.rid].push_back({&F,{S2,len}}); } }
    for(auto it=todo.begin();it!=todo.end();){ if((isPerm.count(it->first)&&isPerm[it->first]||wtPhi.count(it->first))&&!full[it->first]) it=todo.erase(it); else ++it; } // an exchange-only loop keeps its permutation: a partial fill says less
    if(getenv("AI_FIXDBG")) for(auto&t:todo) for(auto&x:t.second) fprintf(stderr,"  [exit %s full=%d start=%s len=%s kc=%lld]\n",Regs[t.first].name.c_str(),(int)full[t.first],wStr(x.second.first,3).c_str(),wStr(x.second.second,3).substr(0,200).c_str(),(long long)kc);
    for(auto&t:todo){ int rid=t.first; u64 lo=0,hi=0; bool any=false; u32 attr=0; u32 es=1; for(auto&c:recd) if(c.rid==rid){ if(!any){ lo=c.vlo; hi=c.vhi; es=c.es; any=c.vAny; } else if(c.es!=es){ es=1; lo=0; hi=255; } else { lo=min(lo,c.vlo); hi=max(hi,c.vhi); } attr|=c.attr; } u64 m=es>=8?~0ULL:(1ULL<<(8*es))-1; if(!any){ lo=0; hi=m; }
      if(full[rid]){ RP*q=findReg(init,rid); if(q) for(auto&p:s.mem) if(p.first==rid) p.second=*q; }
      for(auto&x:t.second){ Fill&F=*x.first; u32 e2=es; u64 l2=lo,h2=hi; auto al=[&](const LinF&l){ if(l.c%(i64)es) return false; for(auto&z:l.t) if(z.second%(i64)es) return false; return true; }; if(!al(toLin(x.second.first))||(!F.contiguous&&F.e%es)){ e2=1; l2=0; h2=255; } Arr*&a=fillArr[{rid,{(int)(&F-fills.data()),(int)e2}}]; if(!a) a=mkBase("filled:"+Regs[rid].name,e2,l2,h2,attr,true);
        if(F.affine&&kc>=0&&kc<=4096&&(F.contiguous?isC(x.second.second)&&x.second.second->c==(u64)(kc*F.e):true)){ if(F.contiguous){ vector<W*> by; for(i128 k=0;k<kc;k++){ W*v=mkConst(8*F.n,(u64)(F.vc+F.vd*(i64)k)&maskw(8*F.n)); if(F.n==1) by.push_back(v); else for(u64 b=0;b<F.n;b++) by.push_back(wByte(v,b)); } if(by.size()) writeMem(s,rid,x.second.first,{cellsP(by)},C64(by.size()),F.n); } else for(u64 k=0;k<(u64)kc;k++){ W*v=mkConst(8*F.n,(u64)(F.vc+F.vd*(i64)k)&maskw(8*F.n)); vector<W*> by; if(F.n==1) by.push_back(v); else for(u64 b=0;b<F.n;b++) by.push_back(wByte(v,b)); writeMem(s,rid,wAdd(x.second.first,C64(k*F.e)),{cellsP(by)},C64(F.n),F.n); } continue; }
        if(F.contiguous){ W*len=x.second.second; if(isC(len)&&len->c==0) continue; writeMem(s,rid,x.second.first,{runS(a,C64(0),len)},len,e2); } else for(u64 k=0;k<x.second.second->c;k++) writeMem(s,rid,wAdd(x.second.first,C64(k*F.e)),{runP(a,C64(k*F.e),F.n)},C64(F.n),e2); } }
    for(auto&oc:oneCls){ int rid=oc.first; FCls&c=*oc.second; if(!findReg(s,rid)||todo.count(rid)) continue; W*off=wAdd(c.inv,C64((u64)(i64)c.lo)); W*len=C64((u64)(c.hi-c.lo)); RP hr=headMem[rid]; State t; t.f=init.f; t.mem.push_back({rid,hr}); Blob hb=canonBlob(readMem(t,rid,off,len)); if(hb.size()!=1||!hb[0].arr||hb[0].arr->k!=A_BASE) continue; Arr*ha=hb[0].arr;
      if(isPerm[rid]){ Arr*&a=permArr[rid]; Blob ib=canonBlob(readMem(init,rid,off,len)); if(!a){ bool any; u64 l,h; u32 at=0; blobRange(ib,ha->elem,init.f,any,l,h,at); if(!any){ l=ha->elo; h=ha->ehi; } a=mkBase("exchanged:"+Regs[rid].name,ha->elem,l,h,at,true); } permOf[a]=ib; for(auto&p:s.mem) if(p.first==rid) p.second=*findReg(init,rid); writeMem(s,rid,off,{runP(a,C64(0),len->c)},len,ha->elem); }
      else if(wtPhi.count(rid)){ FPh&p=ph[wtPhi[rid]]; W*inc; if(!weightStep(s,rid,inc)) continue; Blob ib=canonBlob(readMem(init,rid,C64(0),Regs[rid].size)); bool zero=ib.size()==1&&ib[0].arr&&ib[0].arr->k==A_CONSTB&&ib[0].arr->cb==0; if(!zero){ zero=true; for(auto&z:ib){ if(z.arr){ if(!(z.arr->k==A_CONSTB&&z.arr->cb==0)) zero=false; } else for(u64 i=0;i<z.n;i++){ W*y=z.byte(i); if(!(isC(y)&&y->c==0)) zero=false; } } } if(!zero||!isC(p.init.w)) continue;
        Arr*a=mkBase("counted:"+Regs[rid].name,1,ha->elo,ha->ehi,ha->attr,true); W*h64=wZext(p.head,64,s.f); weightOf[a]=wAdd(wtSign[rid]>0?wSub(h64,C64(p.init.w->c)):wSub(C64(p.init.w->c),h64),inc); for(auto&q:s.mem) if(q.first==rid) q.second=*findReg(init,rid); writeMem(s,rid,off,{runP(a,C64(0),len->c)},len,1); } }
    for(int i:fixidx) if(i<(int)s.regs.size()&&s.regs[i].w){ W*w=s.regs[i].w; w=wReduce(w,s.f); if(!isC(w)&&decodePtr(w).rid<=0){ u64 l,h; if(urange(w,s.f,l,h)&&l==h) w=mkConst(w->w,l); else { Range r=rangeOf(w,s.f); if(r.lo==r.hi) w=mkConst(w->w,(u64)r.lo&maskw(w->w)); } } else if(!isC(w)&&w->w==64){ PD d=decodePtr(w); if(d.rid>0&&!isC(d.off)){ Range r=rangeOf(d.off,s.f); if(r.lo==r.hi) w=wAdd(Regs[d.rid].base,C64((u64)(i64)r.lo)); } } s.regs[i].w=w; }
    exits.push_back(move(e)); }
  curI=svI; }
