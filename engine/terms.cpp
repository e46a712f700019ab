#include "terms.h"
#include <set>
vector<BN> BNs;
static HMap<u32> bnBySig;
static HMap<LSet*> setIntern;
static HMap<W*> wIntern;
static HMap<Arr*> arrIntern;
static u32 wIds=0, arrIds=0, factIds=0;
static vector<LinF> equalities;
u64 stTables=0, stTableRows=0;

void unsupported(const string&m){ throw Unsupported{m}; }

u32 litAttr(Lit l){ return BNs[l>>1].attr; }
// ---------------- sets
static inline u64 prio(Lit l){ return mix64(l*0x9e3779b97f4a7c15ULL+77); }
static inline u128 bsig(Lit l){ u128 s=BNs[l>>1].sig; return (l&1)?~s:s; }
static LSet* mkSet(Lit l,LSet*L,LSet*R){
  H h; h.add((u64)0x51); h.add(bsig(l)); h.add(L?L->h:(u128)0); h.add(R?R->h:(u128)0);
  auto&e=setIntern[h.get()]; if(e) return e;
  LSet*s=new LSet{l,L,R,h.get(),1+(L?L->n:0)+(R?R->n:0),litAttr(l)|(L?L->attr:0)|(R?R->attr:0)};
  return e=s; }
static void splitSet(LSet*s,Lit k,LSet*&L,LSet*&R,bool&conf){
  if(!s){L=R=nullptr;return;}
  if(s->l==k){ L=s->L; R=s->R; return; }
  if(s->l==(k^1)) conf=true;
  if(s->l<k){ LSet*a; splitSet(s->R,k,a,R,conf); L=(a==s->R)?s:mkSet(s->l,s->L,a); }
  else { LSet*b; splitSet(s->L,k,L,b,conf); R=(b==s->L)?s:mkSet(s->l,b,s->R); } }
static LSet* unionSet(LSet*a,LSet*b,bool&conf){
  if(!a) return b; if(!b||a==b) return a; if(conf) return a;
  if(prio(a->l)<prio(b->l)) swap(a,b);
  LSet*L,*R; splitSet(b,a->l,L,R,conf);
  LSet*x=unionSet(a->L,L,conf),*y=unionSet(a->R,R,conf);
  if(x==a->L&&y==a->R) return a;
  return mkSet(a->l,x,y); }
static bool hasLit(LSet*s,Lit l){ while(s){ if(s->l==l) return true; s= l<s->l? s->L: s->R; } return false; }
static void eachLit(LSet*s,const function<bool(Lit)>&f,bool&stop){ if(!s||stop) return; eachLit(s->L,f,stop); if(stop) return; if(!f(s->l)){stop=true;return;} eachLit(s->R,f,stop); }
void setVec(LSet*s,vector<Lit>&o){ if(!s) return; setVec(s->L,o); o.push_back(s->l); setVec(s->R,o); }

static unordered_map<Lit,vector<u32>> watchers; // lit -> AND nodes (small) having it as member

static u32 newBN(BN b){ BNs.push_back(b); u32 id=BNs.size()-1; bnBySig[b.sig]=id; return id; }
void initTerms(){ BNs.reserve(1<<20); BN z{}; z.k=B_CONST; z.sig=0; BNs.push_back(z); }

Lit mkXor(Lit a,Lit b){
  u32 ng=(a^b)&1; a&=~1u; b&=~1u;
  if(a==b) return ng; if(!a) return b|ng; if(!b) return a|ng;
  u128 s=BNs[a>>1].sig^BNs[b>>1].sig;
  auto it=bnBySig.find(s); if(it!=bnBySig.end()) return (it->second<<1)|ng;
  BN n{}; n.k=B_XOR; n.x=a; n.y=b; n.sig=s; n.attr=litAttr(a)|litAttr(b);
  return (newBN(n)<<1)|ng; }
Lit mkEqv(Lit a,Lit b){ return NOT(mkXor(a,b)); }
static LSet* setOf(Lit l){ if(!(l&1)&&BNs[l>>1].k==B_AND) return BNs[l>>1].set; return mkSet(l,nullptr,nullptr); }
static Lit fromSet(LSet*s){
  if(!s) return TRUE_; if(s->n==1) return s->l;
  H h; h.add((u64)0xA4D); h.add(s->h); u128 g=h.get();
  auto it=bnBySig.find(g); if(it!=bnBySig.end()) return it->second<<1;
  BN n{}; n.k=B_AND; n.set=s; n.sig=g; n.attr=s->attr;
  u32 id=newBN(n);
  if(s->n<=16){ vector<Lit> v; setVec(s,v); for(Lit l:v) watchers[l].push_back(id); }
  return id<<1; }
Lit mkAnd(Lit a,Lit b){
  if(a==FALSE_||b==FALSE_||a==NOT(b)) return FALSE_;
  if(a==TRUE_) return b; if(b==TRUE_||a==b) return a;
  for(int sw=0;sw<2;sw++){ // a & !AND(S): drop members of S implied by a
    if((b&1)&&BNs[b>>1].k==B_AND){ LSet*S=BNs[b>>1].set; if(S->n<=12){
      LSet*A=setOf(a); vector<Lit> v,rem; setVec(S,v); bool sat=false;
      for(Lit l:v){ if(hasLit(A,l)) continue; if(hasLit(A,NOT(l))) sat=true; rem.push_back(l); }
      if(sat) return a;
      if(rem.size()<v.size()){ Lit r=TRUE_; for(Lit l:rem) r=mkAnd(r,l); return mkAnd(a,NOT(r)); } } }
    swap(a,b); }
  bool conf=false; LSet*s=unionSet(setOf(a),setOf(b),conf); if(conf) return FALSE_;
  return fromSet(s); }
Lit mkMux(Lit c,Lit x,Lit y){
  if(c==TRUE_||x==y) return x; if(c==FALSE_) return y;
  if(x==TRUE_) return mkOr(c,y); if(x==FALSE_) return mkAnd(NOT(c),y);
  if(y==TRUE_) return mkOr(NOT(c),x); if(y==FALSE_) return mkAnd(c,x);
  if(x==c) return mkOr(c,y); if(x==NOT(c)) return mkAnd(NOT(c),y);
  if(y==c) return mkAnd(c,x); if(y==NOT(c)) return mkOr(NOT(c),x);
  { auto isAnd=[](Lit l){ return BNs[l>>1].k==B_AND; };
    if((x&1)&&(y&1)&&(isAnd(x)||isAnd(y))) return NOT(mkMux(c,NOT(x),NOT(y)));
    if((!(x&1)&&isAnd(x))||(!(y&1)&&isAnd(y))){ LSet*A=setOf(x),*B=setOf(y); for(int sw=0;sw<2;sw++){ if(B->n<A->n&&B->n<=20000){ bool sub=true,stop=false; eachLit(B,[&](Lit l){ sub=hasLit(A,l); return sub; },stop); 
        if(sub){ vector<Lit> v; setVec(A,v); Lit rest=TRUE_,com=TRUE_; for(Lit l:v){ if(hasLit(B,l)) com=mkAnd(com,l); else rest=mkAnd(rest,l); } Lit cc=sw?NOT(c):c; return mkAnd(com,NOT(mkAnd(cc,NOT(rest)))); } } swap(A,B); } } }
  return mkXor(y,mkAnd(c,mkXor(x,y))); }
Lit mkBitOf(W*w,int i){
  H h; h.add((u64)0xB17); h.add(w->h); h.add((u64)i); u128 g=h.get();
  auto it=bnBySig.find(g); if(it!=bnBySig.end()) return it->second<<1;
  BN n{}; n.k=B_BITOF; n.w=w; n.idx=i; n.sig=g; n.attr=w->attr; return newBN(n)<<1; }
static Lit mkLinLit(BK k,W*lin){
  H h; h.add((u64)0xC00+k); h.add(lin->h); u128 g=h.get();
  auto it=bnBySig.find(g); if(it!=bnBySig.end()) return it->second<<1;
  BN n{}; n.k=k; n.w=lin; n.sig=g; n.attr=lin->attr; return newBN(n)<<1; }
// ---------------- words
static W* internW(u128 h,const function<W*()>&f){ auto it=wIntern.find(h); if(it!=wIntern.end()) return it->second; W*w=f(); w->h=h; w->id=wIds++; wIntern[h]=w; return w; }
W* mkConst(int w,u64 c){ c&=maskw(w?w:64); H h; h.add((u64)1).add((u64)w).add(c);
  return internW(h.get(),[&]{ W*x=new W(); x->k=W_CONST; x->w=w; x->c=c; x->lo=x->hi=c; return x; }); }
static int effW(W*x){ const auto&b=bitsOf(x); int k=b.size(); while(k&&b[k-1]==FALSE_) k--; return k; }
static W* rawBits(int w,const vector<Lit>&b){
  H h; h.add((u64)2).add((u64)w); for(Lit l:b) h.add(bsig(l));
  return internW(h.get(),[&]{ W*x=new W(); x->k=W_BITS; x->w=w; x->b=b; i128 lo=0,hi=0; u32 at=0;
    for(int i=0;i<w;i++){ if(b[i]==TRUE_) lo|=(i128)1<<i; if(b[i]!=FALSE_) hi|=(i128)1<<i; at|=litAttr(b[i]); } x->lo=lo;x->hi=hi;x->attr=at; return x; }); }
// if b[0..k) are exactly the low bits of one word X (X's value fits in k bits), return X
static W* wholeWord(const vector<Lit>&b,int s,int e){
  Lit top=b[e-1]; if(top&1) return nullptr; BN&n=BNs[top>>1]; if(n.k!=B_BITOF) return nullptr;
  int k=e-s; W*X=n.w; if(n.idx!=k-1) { return nullptr; }
  if(X->k==W_LIN){ if(X->w!=k) return nullptr; }
  const auto&xb=bitsOf(X); for(int i=0;i<k;i++) if(xb[i]!=b[s+i]) return nullptr;
  for(size_t i=k;i<xb.size();i++) if(xb[i]!=FALSE_) return nullptr;
  return X; }
W* mkBits(int w,const vector<Lit>&b0){
  vector<Lit> b(b0.begin(),b0.begin()+w);
  int k=w; while(k&&b[k-1]==FALSE_) k--;
  bool allc=true; u64 c=0; for(int i=0;i<w;i++){ if(b[i]>1){allc=false;break;} if(b[i]) c|=1ULL<<i; }
  if(allc) return mkConst(w,c);
  W*X=wholeWord(b,0,k); if(X&&X->w==w) return X;
  if(X&&X->k==W_LIN&&X->w<w&&X->lo>=0&&X->hi<((i128)1<<X->w)) return mkLin(w,(i64)X->c,X->t);
  return rawBits(w,b); }
W* litW(Lit l){ vector<Lit> v{l}; return mkBits(1,v); }
W* mkOp(int w,u16 op,const vector<W*>&a,u64 c,Arr*arr,i128 lo,i128 hi,u32 attr){
  H h; h.add((u64)4).add((u64)w).add((u64)op); if(op==OP_ITE) h.add(bsig((Lit)c)); else h.add(c);
  for(W*x:a) h.add(x->h); if(arr) h.add(arr->h); 
  if(lo<0) lo=0; if(hi>(i128)maskw(w)) hi=maskw(w);
  h.add((u128)lo).add((u128)hi);
  return internW(h.get(),[&]{ W*x=new W(); x->k=W_OP; x->w=w; x->op=op; x->c=c; x->a=a; x->arr=arr; x->lo=lo; x->hi=hi; u32 at=attr; for(W*y:a) at|=y->attr; if(op==OP_ITE) at|=litAttr((Lit)c); if(arr) at|=arr->attr; x->attr=at; return x; }); }
static W* mkLin0(i64 c,const vector<pair<W*,i64>>&t){ // ideal integer linear form, sorted merged terms
  H h; h.add((u64)3).add((u64)0).add((u64)c); for(auto&p:t) h.add(p.first->h).add((u64)p.second);
  return internW(h.get(),[&]{ W*x=new W(); x->k=W_LIN; x->w=0; x->c=(u64)c; x->t=t; i128 lo=c,hi=c; u32 at=0; for(auto&p:t){ Range r{p.first->lo,p.first->hi}; if(p.second>0){lo+=r.lo*p.second;hi+=r.hi*p.second;} else {lo+=r.hi*p.second;hi+=r.lo*p.second;} at|=p.first->attr; } x->lo=lo;x->hi=hi;x->attr=at; return x; }); }
static void normTerms(vector<pair<W*,i64>>&t){
  bool sorted=true; for(size_t i=1;i<t.size();i++) if(!(t[i-1].first->id<t[i].first->id)){sorted=false;break;}
  if(!sorted){ sort(t.begin(),t.end(),[](auto&a,auto&b){return a.first->id<b.first->id;});
    size_t j=0; for(size_t i=0;i<t.size();){ W*x=t[i].first; i64 c=0; while(i<t.size()&&t[i].first==x) c=(i64)((u64)c+(u64)t[i++].second); if(c) t[j++]={x,c}; } t.resize(j); }
  else { size_t j=0; for(auto&p:t) if(p.second) t[j++]=p; t.resize(j);} }
static i64 sgn(int w,u64 c){ if(w>=64||w==0) return (i64)c; c&=maskw(w); if(c>>(w-1)&1) return (i64)(c|~maskw(w)); return (i64)c; }
W* mkLin(int w,i64 c,vector<pair<W*,i64>> t){
  normTerms(t); size_t j=0; for(auto&p:t){ i64 s=sgn(w,(u64)p.second); if(s) t[j++]={p.first,s}; } t.resize(j); c=sgn(w,(u64)c);
  if(t.empty()) return mkConst(w,(u64)c);
  if(t.size()==1&&t[0].first->w==1&&t[0].first->k==W_BITS){ Lit l=t[0].first->b[0]; u64 c0=c,c1=(u64)c+(u64)t[0].second; vector<Lit> b(w);
    for(int i=0;i<w;i++){ int x=c0>>i&1,y=c1>>i&1; b[i]= x==y? (x?TRUE_:FALSE_): (y? l: NOT(l)); } return mkBits(w,b); }
  if(t.size()==1 && t[0].second==1 && c==0){ W*x=t[0].first; if(x->w==w) return x; const auto&xb=bitsOf(x); bool ok=true; for(size_t i=w;i<xb.size();i++) if(xb[i]!=FALSE_) ok=false; (void)ok; vector<Lit> b(w,FALSE_); for(int i=0;i<w&&i<(int)xb.size();i++) b[i]=xb[i]; return mkBits(w,b); }
  { bool ok=true; u64 used=(u64)c&maskw(w); vector<Lit> b; 
    if(t.size()<=16){ 
      for(auto&p:t){ u64 cf=(u64)p.second&maskw(w); if(cf&(cf-1)){ok=false;break;} int s=__builtin_ctzll(cf); int e=effW(p.first); if(s+e>w){ok=false;break;} u64 m=(e>=64?~0ULL:((1ULL<<e)-1))<<s; if(used&m){ok=false;break;} used|=m; }
      if(ok){ b.assign(w,FALSE_); for(int i=0;i<w;i++) if((u64)c>>i&1) b[i]=TRUE_; for(auto&p:t){ int s=__builtin_ctzll((u64)p.second&maskw(w)); const auto&xb=bitsOf(p.first); int e=effW(p.first); for(int i=0;i<e;i++) b[s+i]=xb[i]; } return mkBits(w,b); } } }
  H h; h.add((u64)3).add((u64)w).add((u64)c); for(auto&p:t) h.add(p.first->h).add((u64)p.second);
  return internW(h.get(),[&]{ W*x=new W(); x->k=W_LIN; x->w=w; x->c=(u64)c; x->t=t; i128 lo=c,hi=c; u32 at=0; for(auto&p:t){ i128 l=p.first->lo,u=p.first->hi; if(p.second>0){lo+=l*p.second;hi+=u*p.second;} else {lo+=u*p.second;hi+=l*p.second;} at|=p.first->attr; } x->lo=lo;x->hi=hi;x->attr=at; return x; }); }
static Range atomRange(W*x,Fact*f);
const vector<Lit>& bitsOf(W*w){
  if(w->k==W_BITS) return w->b;
  if(w->bc) return *w->bc;
  vector<Lit> b(w->w,FALSE_);
  if(w->k==W_CONST){ for(int i=0;i<w->w;i++) b[i]=(w->c>>i&1)?TRUE_:FALSE_; }
  else if(w->k==W_LIN){
    // bit 0: parity
    Lit p=(w->c&1)?TRUE_:FALSE_; for(auto&t:w->t) if(t.second&1) p=mkXor(p,bitsOf(t.first)[0]); b[0]=p;
    Range tr{0,0}; bool neg=false; { LinF l; l.c=w->w>=64?(i64)w->c:(i64)(w->c<<(64-w->w))>>(64-w->w); l.t=w->t; i128 lo=l.c,hi=l.c; neg=l.t.size()<=8; if(neg) for(auto&t:l.t){ if(t.first->attr&A_UNINIT){ neg=false; break; } Range r=atomRange(t.first,nullptr); if(t.second>0){ lo+=r.lo*t.second; hi+=r.hi*t.second; } else { lo+=r.hi*t.second; hi+=r.lo*t.second; } } tr={lo,hi}; if(hi-lo>=((i128)1<<40)) neg=false; } // representative modulo 2^w
    for(int i=1;i<w->w;i++){ 
      if(w->lo>=0&&w->hi<((i128)1<<i)){ b[i]=FALSE_; continue; }
      if(neg&&(tr.lo>>i)==(tr.hi>>i)){ b[i]=((tr.lo>>i)&1)?TRUE_:FALSE_; continue; }
      if(i==w->w-1){ b[i]=mkBitOf(w,i); continue; }
      W*x=mkLin(i+1,(i64)w->c,w->t); if(x->k==W_LIN) b[i]=mkBitOf(x,i); else b[i]=bitsOf(x)[i]; } }
  else { // OP
    if(w->op==OP_ITE){ const auto x=bitsOf(w->a[0]); const auto y=bitsOf(w->a[1]); for(int i=0;i<w->w;i++) b[i]=mkMux((Lit)w->c,x[i],y[i]); }
    else if(w->op==OP_SEL&&w->arr->k==A_ITE&&w->w==8){ Arr*r=w->arr; const auto x=bitsOf(selByte(r->a,w->a[0])); const auto y=bitsOf(selByte(r->b,wAdd(w->a[0],r->d))); for(int i=0;i<8;i++) b[i]=mkMux(r->c,x[i],y[i]); }
    else { for(int i=0;i<w->w;i++){ if(w->hi<((i128)1<<i)) b[i]=FALSE_; else b[i]=mkBitOf(w,i); } } }
  w->bc=new vector<Lit>(b); return *w->bc; }

LinF toLin(W*w){
  LinF r; r.c=0;
  switch(w->k){
  case W_CONST: r.c=(i64)w->c; return r;
  case W_LIN: r.c=(i64)w->c; r.t=w->t; return r;
  case W_OP: r.t.push_back({w,1}); return r;
  default: break; }
  const auto&b=w->b; int n=w->w;
  // single literal
  u32 v=0; bool one=true; for(Lit l:b) if(l>1){ if(!v) v=l>>1; else if(v!=(l>>1)){one=false;break;} }
  if(one){ if(w->w==1&&!(b[0]&1)){ r.t.push_back({w,1}); return r; }
    u64 c0=0,c1=0; for(int i=0;i<n;i++){ if(b[i]==TRUE_){c0|=1ULL<<i;c1|=1ULL<<i;} else if(b[i]>1){ if(b[i]&1) c0|=1ULL<<i; else c1|=1ULL<<i; } }
    vector<Lit> lv{(Lit)(v<<1)}; W*a=rawBits(1,lv); // a 1-bit BITS atom (positive literal)
    r.c=(i64)c0; r.t.push_back({a,(i64)(c1-c0)}); return r; }
  for(int i=0;i<n;){
    if(b[i]==FALSE_){ i++; continue; } if(b[i]==TRUE_){ r.c|=(i64)(1ULL<<i); i++; continue; }
    int j=i; while(j<n&&b[j]>1) j++;
    // longest prefix [i,e) which is a whole word
    W*X=nullptr; int e=j; 
    X=wholeWord(b,i,j);
    if(!X){ // run of bits of one base, or non-BITOF group
      auto base=[&](int q)->W*{ Lit l=b[q]; if(l&1) return nullptr; BN&bn=BNs[l>>1]; return (bn.k==B_BITOF&&bn.w->k==W_OP)?bn.w:nullptr; };
      W*B=base(i); e=i+1;
      if(B){ int s=BNs[b[i]>>1].idx; while(e<j&&base(e)==B&&BNs[b[e]>>1].idx==s+(e-i)) e++; }
      else while(e<j&&!base(e)) e++;
      X=wholeWord(b,i,e); 
      if(!X){ vector<Lit> pb(b.begin()+i,b.begin()+e); X=mkBits(e-i,pb); 
        if(X->w==1&&X->k==W_BITS&&(X->b[0]&1)){ vector<Lit> pv{NOT(X->b[0])}; X=rawBits(1,pv); r.c=(i64)((u64)r.c+(1ULL<<i)); r.t.push_back({X,-(i64)(1ULL<<i)}); i=e; continue; } } }
    r.t.push_back({X,(i64)(1ULL<<i)}); i=e; }
  normTerms(r.t); return r; }

// ---------------- facts
static unordered_map<u32,vector<Fact*>> litFacts; static unordered_map<W*,vector<Fact*>> rangeFacts;
static Fact* newFact(Fact*p){ Fact*f=new Fact(); f->parent=p; f->id=++factIds; f->rw=nullptr; f->lit=TRUE_; f->pc=false;
  if(!p){ f->depth=0; f->jump=f; } else { f->depth=p->depth+1; Fact*j=p->jump; f->jump=(p->depth-j->depth==j->depth-j->jump->depth)?j->jump:p; } return f; }
static Fact*rootF(){ static Fact*r=newFact(nullptr); return r; }
Fact* anc(Fact*d,u32 depth){ while(d->depth>depth) d= d->jump->depth>=depth? d->jump: d->parent; return d; }
bool isAncestor(Fact*a,Fact*d){ if(!d) d=rootF(); return a->depth<=d->depth&&anc(d,a->depth)==a; }
Fact* lca(Fact*a,Fact*b){ if(!a)a=rootF(); if(!b)b=rootF(); if(a->depth>b->depth) a=anc(a,b->depth); else b=anc(b,a->depth);
  while(a!=b){ if(a->jump!=b->jump){ a=a->jump;b=b->jump; } else { a=a->parent;b=b->parent; } } return a; }
static int knownLit(Lit l,Fact*f){ if(!f) return -1; auto it=litFacts.find(l>>1); if(it==litFacts.end()) return -1;
  for(size_t i=it->second.size();i-->0;){ Fact*x=it->second[i]; if(isAncestor(x,f)) return ((x->lit^l)&1)?0:1; } return -1; }
static void factRanges(W*w,Fact*f,i128&lo,i128&hi){ if(!f) return; auto it=rangeFacts.find(w); if(it==rangeFacts.end()) return;
  for(size_t i=it->second.size();i-->0;){ Fact*x=it->second[i]; if(isAncestor(x,f)){ if(x->rlo>lo)lo=x->rlo; if(x->rhi<hi)hi=x->rhi; } } }
static Range atomRange(W*x,Fact*f){
  i128 lo=x->lo,hi=x->hi;
  if(x->k==W_LIN){ i128 full=(i128)maskw(x->w); 
    if(x->w){ Range r=linRange(toLin(x),f); if(r.lo>=0&&r.hi<=full){lo=r.lo;hi=r.hi;} else {lo=0;hi=full;} } }
  if(x->k==W_BITS&&f){ i128 l=0,h=0; if(x->w==1){ int e=litEval(x->b[0],f); if(e>=0){ return {e,e}; } }
    else { for(int i=0;i<x->w;i++){ Lit b=x->b[i]; int e= b<=1?(int)b: knownLit(b,f); if(e!=0) h|=(i128)1<<i; if(e==1) l|=(i128)1<<i; } if(l>lo)lo=l; if(h<hi)hi=h; } }
  if(x->k==W_OP&&f&&x->bc&&x->w<=16){ i128 l=0,h=0; for(int i=0;i<x->w;i++){ Lit b=(*x->bc)[i]; int e=b<=1?(int)b:knownLit(b,f); if(e!=0) h|=(i128)1<<i; if(e==1) l|=(i128)1<<i; } if(l>lo)lo=l; if(h<hi)hi=h; }
  if(x->k==W_OP&&x->op==OP_ITE&&f){ int e=litEval((Lit)x->c,f); if(e>=0){ Range r=rangeOf(x->a[e?0:1],f); u64 m=maskw(x->w); if(r.lo>=0&&r.hi<=(i128)m){ if(r.lo>lo)lo=r.lo; if(r.hi<hi)hi=r.hi; } } }
  factRanges(x,f,lo,hi); return {lo,hi}; }
static W* keyOf(const LinF&l,int&sign){ sign=1; if(l.t.size()==1&&l.t[0].second==1) return l.t[0].first;
  vector<pair<W*,i64>> t=l.t; if(t[0].second<0){ sign=-1; for(auto&p:t) p.second=-p.second; } return mkLin0(0,t); }
static Range linRange0(const LinF&l,Fact*f){
  i128 lo=l.c,hi=l.c; for(auto&p:l.t){ Range r=atomRange(p.first,f); if(p.second>0){lo+=r.lo*p.second;hi+=r.hi*p.second;} else {lo+=r.hi*p.second;hi+=r.lo*p.second;} }
  if(f&&l.t.size()&&!(l.t.size()==1&&l.t[0].second==1)&&l.t.size()<4000&&!rangeFacts.empty()){ int s; W*k=keyOf(l,s); i128 a=-((i128)1<<100),b=(i128)1<<100; factRanges(k,f,a,b); if(s<0){ i128 t=a;a=-b;b=-t; } if(a+l.c>lo)lo=a+l.c; if(b+l.c<hi)hi=b+l.c; }
  return {lo,hi}; }
bool haveEqualities(){ return !equalities.empty(); }
Range linRange(const LinF&l,Fact*f){
  Range r=linRange0(l,f);
  if(r.lo!=r.hi) for(auto&p:l.t) if(p.first->k==W_OP&&p.first->op==OP_UREM&&p.first->a.size()==2&&!isC(p.first->a[1])&&p.second>0){ // remainder <= divisor-1
      LinF d=toLin(p.first->a[1]); Range dr=linRange0(d,f); if(dr.lo<1||dr.hi>(i128)maskw(min((int)p.first->w,62))) continue; LinF x; x.c=l.c-p.second+p.second*d.c; for(auto&q:l.t) if(q.first!=p.first) x.t.push_back(q); for(auto&q:d.t) x.t.push_back({q.first,q.second*p.second}); normTerms(x.t); Range y=linRange0(x,f); if(y.hi<r.hi) r.hi=y.hi; }
  if(l.t.size()&&!equalities.empty()&&r.lo!=r.hi) for(auto&e:equalities){
    // find a shared atom
    for(auto&p:l.t){ i64 ec=0; auto it=lower_bound(e.t.begin(),e.t.end(),p.first,[](const pair<W*,i64>&a,W*b){return a.first->id<b->id;}); if(it!=e.t.end()&&it->first==p.first) ec=it->second;
      if(ec&&p.second%ec==0){ i64 k=p.second/ec; LinF d; d.c=l.c-k*e.c; d.t=l.t; for(auto&q:e.t) d.t.push_back({q.first,-k*q.second}); normTerms(d.t); Range r2=linRange0(d,f); if(r2.lo>r.lo)r.lo=r2.lo; if(r2.hi<r.hi)r.hi=r2.hi; break; } } }
  return r; }
Range rangeOf(W*w,Fact*f){
  if(w->k==W_CONST) return {(i128)w->c,(i128)w->c};
  if(w->k==W_LIN) return linRange(toLin(w),f);
  if(w->k==W_OP) return atomRange(w,f);
  Range a{w->lo,w->hi}; LinF l=toLin(w); Range r=linRange(l,f); if(r.lo>a.lo)a.lo=r.lo; if(r.hi<a.hi)a.hi=r.hi; factRanges(w,f,a.lo,a.hi); return a; }
bool urange(W*w,Fact*f,u64&lo,u64&hi){ Range r=rangeOf(w,f); u64 m=maskw(w->w); if(r.lo>=0&&r.hi<=(i128)m&&r.lo<=r.hi){lo=(u64)r.lo;hi=(u64)r.hi;return true;} lo=0;hi=m;return false; }

static Fact* addLitFact(Fact*f,Lit l,bool pc){ Fact*n=newFact(f); n->lit=l; n->pc=pc; litFacts[l>>1].push_back(n); return n; }
Fact* factRange(Fact*f,W*w,i128 lo,i128 hi){
  if(!f) f=rootF(); Range r; if(w->w==0&&w->k==W_LIN){ LinF l; l.c=0; l.t=w->t; r=linRange(l,f);} else r=atomRange(w,f);
  if(lo<=r.lo&&hi>=r.hi) return f; if(lo>r.hi||hi<r.lo) return nullptr;
  Fact*n=newFact(f); n->rw=w; n->rlo=max(lo,r.lo); n->rhi=min(hi,r.hi); rangeFacts[w].push_back(n); f=n;
  if(w->k==W_BITS&&w->w==1&&n->rlo==n->rhi) return factAssume(f,n->rlo?w->b[0]:NOT(w->b[0]),false);
  if(w->k==W_LIN&&w->w){ // narrow LIN atom: propagate to inner form when it does not wrap
    LinF l=toLin(w); Range q=linRange(l,f); if(q.lo>=0&&q.hi<=(i128)maskw(w->w)&&l.t.size()){ int s; LinF nc=l; nc.c=0; W*k=keyOf(nc,s); i128 a=n->rlo-l.c,b=n->rhi-l.c; if(s<0){i128 t=a;a=-b;b=-t;} f=factRange(f,k,a,b); } }
  return f; }
static Fact* factLinLE(Fact*f,const LinF&l,i128 bound){ // sum(l.t)+l.c <= bound
  if(l.t.empty()) return l.c<=bound?f:nullptr;
  LinF nc=l; nc.c=0; int s; W*k=keyOf(nc,s); i128 B=bound-l.c; const i128 INF=(i128)1<<100;
  f= s>0? factRange(f,k,-INF,B): factRange(f,k,-B,INF); if(!f) return f;
  if(l.t.size()<=12&&!(l.t.size()==1&&l.t[0].second==1)) for(size_t i=0;i<l.t.size();i++){ LinF rest; rest.c=0; for(size_t j=0;j<l.t.size();j++) if(j!=i) rest.t.push_back(l.t[j]);
    Range r=rest.t.empty()?Range{0,0}:linRange(rest,f); i128 m=B-r.lo; i64 c=l.t[i].second; // c*a <= m
    i128 q; if(c>0){ q= m>=0? m/c: -((-m+c-1)/c); f=factRange(f,l.t[i].first,-INF,q);} else { i128 cc=-c; // a >= ceil(-m/cc)
      i128 nm=-m; q= nm>=0? (nm+cc-1)/cc: -((-nm)/cc); f=factRange(f,l.t[i].first,q,INF);} if(!f) return f; }
  return f; }
// the value of w lies in [lo,hi] (known from the branches that were joined)
Fact* factHull(Fact*f,W*w,i128 lo,i128 hi){ if(!f) f=rootF(); Range r=rangeOf(w,f); i128 m=(i128)maskw(w->w); if(r.lo<0||r.hi>m||lo>hi) return f; Fact*g=f; LinF l=toLin(w); if(l.t.empty()) return f;
  if(hi<r.hi) g=factLinLE(g,l,hi); if(g&&lo>r.lo){ LinF n; n.c=-l.c; for(auto&p:l.t) n.t.push_back({p.first,-p.second}); g=factLinLE(g,n,-lo); } return g?g:f; }
Fact* factAssume(Fact*f,Lit l,bool pc){
  if(!f) f=rootF();
  if(l==TRUE_) return f; if(l==FALSE_) return nullptr;
  int kn=knownLit(l,f); if(kn==1) return f; if(kn==0) return nullptr;
  int e=litEval(l,f); if(e==0) return nullptr; 
  f=addLitFact(f,l,pc);
  const BN n=BNs[l>>1]; bool pos=!(l&1);
  if(n.eqw){ u64 c=n.eqc&((1ULL<<62)-1); bool lt=n.eqc>>62&1; W*w=n.eqw; const i128 INF=(i128)1<<100;
    if(!lt){ if(pos) f=factRange(f,w,c,c); else { Range r=atomRange(w,f); if(r.lo==(i128)c) f=factRange(f,w,r.lo+1,INF); else if(r.hi==(i128)c) f=factRange(f,w,-INF,r.hi-1); } }
    else { if(pos) f=factRange(f,w,-INF,(i128)c-1); else f=factRange(f,w,c,INF); }
    if(!f) return f; }
  if(n.k==B_AND){ 
    if(pos){ if(n.set->n<=200000){ vector<Lit> v; setVec(n.set,v); for(Lit m:v){ f=factAssume(f,m,false); if(!f) return f; } } }
    else if(n.set->n<=4096){ Lit last=0; int unk=0; vector<Lit> v; setVec(n.set,v); bool sat=false; for(Lit m:v){ int q=knownLit(m,f); if(q<0&&n.set->n<=16) q=litEval(m,f); if(q==0){sat=true;break;} if(q<0){ unk++; last=m; if(unk>1) break; } }
      if(!sat&&unk==0) return nullptr; if(!sat&&unk==1){ f=factAssume(f,NOT(last),false); if(!f) return f; } } }
  else if(n.k==B_XOR){ int x=knownLit(n.x,f),y=knownLit(n.y,f); int v=pos?1:0; if(x>=0) f=factAssume(f,(v^x)?n.y:NOT(n.y),false); else if(y>=0) f=factAssume(f,(v^y)?n.x:NOT(n.x),false); if(!f) return f; }
  else if(n.k==B_NEG){ LinF q=toLin(n.w); if(pos) f=factLinLE(f,q,-1); else { for(auto&t:q.t) t.second=-t.second; q.c=-q.c; f=factLinLE(f,q,0);} if(!f) return f; }
  else if(n.k==B_EQZ&&n.w->w==0){ LinF q=toLin(n.w); if(pos){ f=factLinLE(f,q,0); if(!f) return f; for(auto&t:q.t) t.second=-t.second; q.c=-q.c; f=factLinLE(f,q,0); if(!f) return f; }
    else { Range r=linRange(q,f); if(r.lo==0){ for(auto&t:q.t) t.second=-t.second; q.c=-q.c; f=factLinLE(f,q,-1);} else if(r.hi==0) f=factLinLE(f,q,-1); if(!f) return f; } }
  auto w=watchers.find(l); if(w!=watchers.end()){ vector<u32> cp=w->second; for(u32 id:cp){ if(knownLit(id<<1,f)!=0) continue; vector<Lit> v; setVec(BNs[id].set,v); Lit last=0; int unk=0; bool sat=false; for(Lit m:v){ int q=knownLit(m,f); if(q==0){sat=true;break;} if(q<0){unk++;last=m;} } if(sat) continue; if(!unk) return nullptr; if(unk==1){ f=factAssume(f,NOT(last),false); if(!f) return f; } } }
  return f; }
void addEquality(const LinF&l0){ LinF l=l0; normTerms(l.t); for(auto&e:equalities) if(e.c==l.c&&e.t==l.t) return; equalities.push_back(l); }
Lit suffixAnd(Fact*f,Fact*a){ Lit r=TRUE_; vector<Lit> v; while(f!=a){ if(f->pc) v.push_back(f->lit); f=f->parent; } for(size_t i=v.size();i-->0;) r=mkAnd(r,v[i]); return r; }

static int evalDepth=0;
int litEval(Lit l,Fact*f){
  if(l<=1) return l; int k=knownLit(l,f); if(k>=0) return k;
  const BN n=BNs[l>>1]; int ng=l&1; auto R=[&](int v){ return v<0?-1:v^ng; };
  struct D{ D(){evalDepth++;} ~D(){evalDepth--;} } d;
  switch(n.k){
  case B_NEG: { Range r=linRange(toLin(n.w),f); if(r.hi<0) return R(1); if(r.lo>=0) return R(0); return -1; }
  case B_EQZ: { Range r=linRange(toLin(n.w),f); if(n.w->w==0){ if(r.lo>0||r.hi<0) return R(0); if(r.lo==0&&r.hi==0) return R(1);} else { i128 m=(i128)1<<n.w->w; if(r.lo==r.hi&&r.lo%m==0) return R(1); if((r.lo>0&&r.hi<m)||(r.hi<0&&r.lo>-m)) return R(0);} return -1; }
  case B_BITOF: { W*w=n.w; if(w->k==W_OP||w->k==W_LIN){ if(w->attr&A_UNINIT) return -1; u64 lo,hi; if(f&&urange(w,f,lo,hi)){ if(lo==hi) return R(lo>>n.idx&1); if(n.idx<63&&(hi>>n.idx)==(lo>>n.idx)) return R(lo>>n.idx&1); } } return -1; }
  case B_AND: { if(!f||evalDepth>6) return -1; if(n.eqw&&n.eqw->w){ Range r=atomRange(n.eqw,f); u64 c=n.eqc&((1ULL<<62)-1); bool lt=n.eqc>>62&1; if(!lt){ if(r.lo>(i128)c||r.hi<(i128)c) return R(0); } else { if(r.hi<(i128)c) return R(1); if(r.lo>=(i128)c) return R(0);} }
    if(n.set->n>4096) return -1; bool stop=false; int res=1; 
    if(n.set->n<=64){ eachLit(n.set,[&](Lit m){ int q=litEval(m,f); if(q==0){res=0;return false;} if(q<0) res=-1; return true; },stop);
      if(res==-1&&evalDepth<=2){ vector<Lit> v; setVec(n.set,v); for(Lit m:v){ auto w=watchers.find(m); if(w==watchers.end()||w->second.size()>64) continue; for(u32 id:w->second){ if(BNs[id].set->n>=n.set->n+24) continue; if(knownLit(id<<1,f)!=0) continue; vector<Lit> u; setVec(BNs[id].set,u); bool sub=true; for(Lit q:u) if(!hasLit(n.set,q)&&(BNs[id].set->n<n.set->n||litEval(q,f)!=1)){sub=false;break;} if(sub) return R(0); } } } }
    else eachLit(n.set,[&](Lit m){ int q=knownLit(m,f); if(q==0){res=0;return false;} if(q<0) res=-1; return true; },stop);
    return R(res); }
  case B_XOR: { if(!f||evalDepth>4) return -1; int x=litEval(n.x,f); if(x<0) return -1; int y=litEval(n.y,f); if(y<0) return -1; return R(x^y); }
  default: return -1; } }

static unordered_map<u64,Lit> redMemo; static unordered_map<u64,W*> redWMemo;
Lit litReduce(Lit l,Fact*f){
  if(l<=1||!f) return l; int e=litEval(l,f); if(e>=0) return e;
  u64 key=((u64)f->id<<32)|(l>>1); auto it=redMemo.find(key); if(it!=redMemo.end()) return it->second^(l&1);
  const BN n=BNs[l>>1]; Lit r=l&~1u;
  switch(n.k){
  case B_AND: { vector<Lit> v; setVec(n.set,v); Lit acc=TRUE_; bool ch=false; for(Lit m:v){ Lit q=litReduce(m,f); if(q!=m) ch=true; acc=mkAnd(acc,q); if(acc==FALSE_) break; } if(ch) r=acc; break; }
  case B_XOR: { Lit x=litReduce(n.x,f),y=litReduce(n.y,f); if(x!=n.x||y!=n.y) r=mkXor(x,y); break; }
  case B_BITOF: { W*w=wReduce(n.w,f); if(w!=n.w){ const auto&b=bitsOf(w); if(n.idx<b.size()) r=b[n.idx]; } break; }
  case B_NEG: { W*w=n.w; LinF q=toLin(w); bool ch=false; LinF o; o.c=q.c; for(auto&t:q.t){ W*x=wReduce(t.first,f); if(x!=t.first){ ch=true; LinF y=toLin(x); o.c+=t.second*y.c; for(auto&z:y.t) o.t.push_back({z.first,z.second*t.second}); } else o.t.push_back(t); } if(ch){ normTerms(o.t); r=cNeg(o,f);} break; }
  default: break; }
  if(redMemo.size()>(1u<<22)) redMemo.clear();
  redMemo[key]=r; return r^(l&1); }
W* wReduce(W*w,Fact*f){
  if(!f||w->k==W_CONST) return w;
  u64 key=((u64)f->id<<32)|w->id; auto it=redWMemo.find(key); if(it!=redWMemo.end()) return it->second;
  W*r=w;
  if(w->k==W_BITS){ vector<Lit> b=w->b; bool ch=false; for(auto&l:b){ Lit q=litReduce(l,f); if(q!=l){l=q;ch=true;} } if(ch){ // keep an atom whole when only its range prefix became known: the remaining bits alone would lose the range
      int k=w->w; while(k&&w->b[k-1]==FALSE_) k--; W*X=wholeWord(w->b,0,k); u64 lo,hi; bool keep=false;
      if(X&&X->k==W_OP&&!(X->attr&A_UNINIT)&&urange(X,f,lo,hi)&&lo!=hi){ keep=true; for(int i=0;i<k;i++) if(b[i]!=w->b[i]&&!(b[i]<=1&&(hi>>i)==(lo>>i)&&(lo>>i&1)==b[i])) keep=false; }
      if(!keep) r=mkBits(w->w,b); } }
  else if(w->k==W_LIN&&w->w){ LinF o; o.c=(i64)w->c; bool ch=false; for(auto&t:w->t){ W*x=wReduce(t.first,f); if(x!=t.first){ ch=true; LinF y=toLin(x); o.c=(i64)((u64)o.c+(u64)t.second*(u64)y.c); for(auto&z:y.t) o.t.push_back({z.first,(i64)((u64)z.second*(u64)t.second)}); } else o.t.push_back(t); } if(ch) r=mkLin(w->w,o.c,o.t); }
  else if(w->k==W_OP){ u64 lo,hi; if(w->attr&A_UNINIT){} else if(urange(w,f,lo,hi)&&lo==hi) r=mkConst(w->w,lo);
    else if(w->op==OP_ITE){ Lit c=litReduce((Lit)w->c,f); if(c!=(Lit)w->c||c<=1) r=wIte(c,wReduce(w->a[0],f),wReduce(w->a[1],f)); }
    else if(w->op==OP_SEL&&w->w==8){ W*off=w->a[0]; Arr*a=arrResolve(w->arr,off,f); if(a!=w->arr) r=selByte(a,off); } }
  if(redWMemo.size()>(1u<<21)) redWMemo.clear();
  redWMemo[key]=r; return r; }

// ---------------- word operations
static void addInto(LinF&r,const LinF&x,i64 k){ r.c=(i64)((u64)r.c+(u64)x.c*(u64)k); size_t n=r.t.size(); r.t.reserve(n+x.t.size()); for(auto&p:x.t) r.t.push_back({p.first,(i64)((u64)p.second*(u64)k)}); if(n) normTerms(r.t); }
W* wAdd(W*a,W*b){ if(isC(a)&&isC(b)) return mkConst(a->w,a->c+b->c); if(isC(a)&&!a->c) return b; if(isC(b)&&!b->c) return a; LinF r=toLin(a); addInto(r,toLin(b),1); return mkLin(a->w,r.c,move(r.t)); }
W* wSub(W*a,W*b){ if(isC(a)&&isC(b)) return mkConst(a->w,a->c-b->c); if(a==b) return mkConst(a->w,0); LinF r=toLin(a); addInto(r,toLin(b),-1); return mkLin(a->w,r.c,move(r.t)); }
W* wNeg(W*a){ return wSub(mkConst(a->w,0),a); }
W* wMulC(W*a,i64 c){ if(isC(a)) return mkConst(a->w,a->c*(u64)c); if(!(c&maskw(a->w))) return mkConst(a->w,0);
  u64 cc=(u64)c&maskw(a->w); if(!(cc&(cc-1))&&a->k!=W_LIN){ int s=__builtin_ctzll(cc); const auto&x=bitsOf(a); vector<Lit> b(a->w,FALSE_); for(int i=s;i<a->w;i++) b[i]=x[i-s]; return mkBits(a->w,b);} 
  LinF l=toLin(a); for(auto&p:l.t) p.second=(i64)((u64)p.second*(u64)c); return mkLin(a->w,(i64)((u64)l.c*(u64)c),l.t); }
static bool oneLit(W*a,u64&c0,u64&d,Lit&l){ if(a->k!=W_BITS) return false; u32 v=0; for(Lit x:a->b) if(x>1){ if(!v) v=x>>1; else if(v!=(x>>1)) return false; } if(!v) return false; u64 q0=0,q1=0; for(int i=0;i<a->w;i++){ Lit x=a->b[i]; if(x==TRUE_){q0|=1ULL<<i;q1|=1ULL<<i;} else if(x>1){ if(x&1) q0|=1ULL<<i; else q1|=1ULL<<i; } } 
  if(q1==0&&q0){ c0=0; d=q0; l=(v<<1)|1; } else { c0=q0; d=q1-q0; l=v<<1; } return true; }
W* wMul(W*a,W*b,Fact*f){
  if(isC(a)) return wMulC(b,(i64)a->c); if(isC(b)) return wMulC(a,(i64)b->c);
  u64 c0,d; Lit l;
  for(int s=0;s<2;s++){ if(oneLit(a,c0,d,l)){ const auto&x=bitsOf(b); vector<Lit> m(b->w); for(int i=0;i<b->w;i++) m[i]=mkAnd(l,x[i]); W*y=mkBits(b->w,m); return wAdd(wMulC(b,(i64)c0),wMulC(y,(i64)d)); } swap(a,b); }
  if(a->h>b->h) swap(a,b);
  u64 al,ah,bl,bh; urange(a,f,al,ah); urange(b,f,bl,bh); i128 lo=(i128)al*bl,hi=(i128)((u128)ah*bh); if(hi>(i128)maskw(a->w)||hi<0){lo=0;hi=maskw(a->w);} 
  return mkOp(a->w,OP_MUL,{a,b},0,nullptr,lo,hi,0); }
static W* bitw(W*a,W*b,Lit(*f)(Lit,Lit)){ const auto x=bitsOf(a); const auto&y=bitsOf(b); vector<Lit> r(a->w); for(int i=0;i<a->w;i++) r[i]=f(x[i],y[i]); return mkBits(a->w,r); }
W* wAnd(W*a,W*b){ if(isC(a)&&isC(b)) return mkConst(a->w,a->c&b->c); if(a==b) return a; return bitw(a,b,mkAnd); }
W* wOr(W*a,W*b){ if(isC(a)&&isC(b)) return mkConst(a->w,a->c|b->c); if(a==b) return a; return bitw(a,b,mkOr); }
W* wXor(W*a,W*b){ if(isC(a)&&isC(b)) return mkConst(a->w,a->c^b->c); if(a==b) return mkConst(a->w,0); if(isC(b)&&b->c==maskw(b->w)) return wNot(a); return bitw(a,b,mkXor); }
W* wNot(W*a){ if(a->k==W_LIN) return wSub(mkConst(a->w,~0ULL),a); const auto&x=bitsOf(a); vector<Lit> r(a->w); for(int i=0;i<a->w;i++) r[i]=NOT(x[i]); return mkBits(a->w,r); }
static W* shC(W*a,int kind,int s){ int w=a->w; const auto&x=bitsOf(a); vector<Lit> r(w);
  for(int i=0;i<w;i++){ int j= kind==0? i-s: i+s; Lit v; if(j<0) v=FALSE_; else if(j>=w) v= kind==2? x[w-1]: FALSE_; else v=x[j]; r[i]=v; } return mkBits(w,r); }
static W* shV(W*a,W*b,int kind,u16 op,Fact*f){
  if(isC(b)){ if(b->c>=(u64)a->w) return kind==2? shC(a,2,a->w-1): mkConst(a->w,0); if(!b->c) return a; if(kind==0) return wMulC(a,(i64)(1ULL<<b->c)); 
    u64 lo,hi; if(kind==1&&a->k==W_LIN&&urange(a,f,lo,hi)){ // exact division when all terms divisible
      i64 m=1LL<<b->c; LinF l=toLin(a); bool ok=true; for(auto&p:l.t) if(p.second%m) ok=false; if(ok){ i64 q= l.c>=0? l.c/m: -((-l.c+m-1)/m); for(auto&p:l.t) p.second/=m; return mkLin(a->w,q,l.t);} }
    return shC(a,kind,b->c); }
  // symbolic amount: barrel if few bits
  const auto&bb=bitsOf(b); int k=b->w; while(k&&bb[k-1]==FALSE_) k--; if(k<=6&&(1<<k)<=2*a->w){ W*r=a; vector<Lit> cp=bb; for(int i=0;i<k;i++){ W*s= (1<<i)>=a->w? (kind==2?shC(r,2,a->w-1):mkConst(a->w,0)): shC(r,kind,1<<i); r=wIte(cp[i],s,r); } return r; }
  return mkOp(a->w,op,{a,b},0,nullptr,0,maskw(a->w),0); }
W* wShl(W*a,W*b,Fact*f){ return shV(a,b,0,OP_SHL,f); }
W* wLshr(W*a,W*b,Fact*f){ return shV(a,b,1,OP_LSHR,f); }
W* wAshr(W*a,W*b,Fact*f){ u64 lo,hi; if(a->k==W_LIN&&urange(a,f,lo,hi)&&hi<(1ULL<<(a->w-1))) return shV(a,b,1,OP_LSHR,f); return shV(a,b,2,OP_ASHR,f); }
W* wDivRem(int op,W*a,W*b,Fact*f){
  u64 al,ah,bl,bh; bool ra=urange(a,f,al,ah),rb=urange(b,f,bl,bh); (void)ra;(void)rb; int w=a->w; u64 half=1ULL<<(w-1);
  if(op==OP_SREM||op==OP_SDIV){ if(isC(a)&&isC(b)&&b->c){ i64 x=sgn(w,a->c),y=sgn(w,b->c); if(y==-1) return op==OP_SREM?mkConst(w,0):mkConst(w,-(u64)x); return mkConst(w,(u64)(op==OP_SREM?x%y:x/y)); }
    if(ah<half&&bh<half) op= op==OP_SREM?OP_UREM:OP_UDIV; else return mkOp(w,op,{a,b},0,nullptr,0,maskw(w),0); }
  if(isC(a)&&isC(b)&&b->c) return mkConst(w,op==OP_UREM?a->c%b->c:a->c/b->c);
  if(isC(b)&&b->c&&!(b->c&(b->c-1))){ int s=__builtin_ctzll(b->c); if(op==OP_UREM) return wAnd(a,mkConst(w,b->c-1)); return wLshr(a,mkConst(w,s),f); }
  if(bl>0&&ah<bl) return op==OP_UREM? a: mkConst(w,0);
  if(op==OP_UREM) return mkOp(w,op,{a,b},0,nullptr,0,bh?min(ah,bh-1):ah,0);
  return mkOp(w,op,{a,b},0,nullptr,bh?al/bh:0,bl?ah/bl:ah,0); }
W* wZext(W*a,int w,Fact*f){ if(isC(a)) return mkConst(w,a->c); if(a->k==W_LIN){ u64 lo,hi; if((a->t.size()>=6&&urange(a,nullptr,lo,hi))||urange(a,f,lo,hi)){ LinF l=toLin(a); return mkLin(w,l.c,l.t);} } 
  const auto&x=bitsOf(a); vector<Lit> b(w,FALSE_); copy(x.begin(),x.end(),b.begin()); return mkBits(w,b); }
W* wSext(W*a,int w,Fact*f){ if(isC(a)) return mkConst(w,(u64)sgn(a->w,a->c)); u64 lo,hi; bool ok=urange(a,f,lo,hi); if(ok&&hi<(1ULL<<(a->w-1))) return wZext(a,w,f);
  if(a->k==W_LIN){ Range r=rangeOf(a,f); i128 h=(i128)1<<(a->w-1); if(r.lo>=-h&&r.hi<h){ LinF l=toLin(a); return mkLin(w,l.c,l.t);} }
  const auto&x=bitsOf(a); vector<Lit> b(w); for(int i=0;i<w;i++) b[i]=x[min(i,(int)a->w-1)]; return mkBits(w,b); }
W* wTrunc(W*a,int w){ if(isC(a)) return mkConst(w,a->c); if(a->k==W_LIN) return mkLin(w,(i64)a->c,a->t); const auto&x=bitsOf(a); vector<Lit> b(x.begin(),x.begin()+w); return mkBits(w,b); }
W* wIte(Lit c,W*a,W*b){
  if(a==b||c==TRUE_) return a; if(c==FALSE_) return b;
  if(!(isC(a)&&isC(b))){ LinF d=toLin(a); addInto(d,toLin(b),-1); 
    bool cst=true; i64 dc=d.c; for(auto&p:d.t) if(sgn(a->w,(u64)p.second)) cst=false;
    if(cst){ if(!sgn(a->w,(u64)dc)) return a; return wAdd(b,wMulC(wZext(litW(c),a->w,nullptr),dc)); } 
    // difference k*[x] or k*(1-[x]): a counter incremented under a nested condition
    if(d.t.size()==1&&d.t[0].first->k==W_BITS&&d.t[0].first->w==1&&(d.c==0||d.c==-d.t[0].second)&&(a->k==W_LIN||b->k==W_LIN)){ Lit x=d.t[0].first->b[0]; i64 k=d.t[0].second; if(d.c){ x=NOT(x); k=-k; } if(toLin(a).t.size()<toLin(b).t.size()){ b=a; c=NOT(c); k=-k; } return wAdd(b,wMulC(wZext(litW(mkAnd(c,x)),a->w,nullptr),k)); } }
  if(a->k!=W_LIN&&b->k!=W_LIN){ const auto x=bitsOf(a); const auto&y=bitsOf(b); vector<Lit> r(a->w); for(int i=0;i<a->w;i++) r[i]=mkMux(c,x[i],y[i]); return mkBits(a->w,r); }
  if(c&1){ swap(a,b); c=NOT(c); }
  u64 al,ah,bl,bh; urange(a,nullptr,al,ah); urange(b,nullptr,bl,bh);
  return mkOp(a->w,OP_ITE,{a,b},c,nullptr,min(al,bl),max(ah,bh),0); }
W* wConcat(const vector<W*>&v){ if(v.size()==1) return v[0]; bool allc=true; u64 c=0; for(size_t i=0;i<v.size();i++){ if(!isC(v[i])){allc=false;break;} c|=v[i]->c<<(8*i); } if(allc) return mkConst(8*v.size(),c);
  vector<Lit> b; b.reserve(8*v.size()); for(W*x:v){ const auto&y=bitsOf(x); b.insert(b.end(),y.begin(),y.end()); } return mkBits(b.size(),b); }
W* wByte(W*a,int i){ if(a->w==8) return a; if(isC(a)) return mkConst(8,a->c>>(8*i)); const auto&x=bitsOf(a); vector<Lit> b(x.begin()+8*i,x.begin()+8*i+8); return mkBits(8,b); }
static bool idealU(W*w,Fact*f,LinF&l){ l=toLin(w); if(w->k==W_LIN){ Range r=linRange(l,f); return r.lo>=0&&r.hi<=(i128)maskw(w->w);} if(w->w==64&&w->k==W_BITS&&w->b[63]!=FALSE_) return false; if(w->k==W_CONST) return w->c<(1ULL<<63); return true; }
static bool idealS(W*w,Fact*f,LinF&l){ l=toLin(w); if(w->k==W_CONST){ l.c=sgn(w->w,w->c); return true; } Range r=linRange(l,f); i128 h=(i128)1<<(w->w-1); if(w->k!=W_LIN){ Range q=rangeOf(w,f); return q.hi<h; } return r.lo>=-h&&r.hi<h; }
enum { OP_ULT=40, OP_SLT=41 };
static i64 igcd(i64 a,i64 b){ while(b){ i64 t=a%b;a=b;b=t;} return a<0?-a:a; }
static i64 fdiv(i64 a,i64 b){ i64 q=a/b; if((a%b)&&((a<0)!=(b<0))) q--; return q; }
static void noteEq(Lit l,W*w,u64 c,bool lt){ if(l<=1) return; if(l&1){ return; } BN&n=BNs[l>>1]; if(!n.eqw&&n.k==B_AND){ n.eqw=w; n.eqc=c|(lt?(1ULL<<62):0); } }
Lit cNeg(LinF l,Fact*f){
  normTerms(l.t); if(l.t.empty()) return l.c<0?TRUE_:FALSE_;
  Range r; if(l.t.size()>=6&&f){ r=linRange(l,nullptr); if(r.hi<0) return TRUE_; if(r.lo>=0) return FALSE_; }
  r=linRange(l,f); if(r.hi<0) return TRUE_; if(r.lo>=0) return FALSE_;
  i64 g=0; for(auto&p:l.t) g=igcd(g,p.second); if(g>1){ for(auto&p:l.t) p.second/=g; l.c=fdiv(l.c,g); }
  bool ng=false; if(l.t[0].second<0){ ng=true; for(auto&p:l.t) p.second=-p.second; l.c=-l.c-1; }
  Lit x;
  if(l.t.size()==1&&l.t[0].second==1){ W*X=l.t[0].first; i64 t=-l.c; // X < t
    if(X->w==1) x= t==1? NOT(bitsOf(X)[0]): (t>1?TRUE_:FALSE_);
    else if(X->k!=W_LIN&&!(t&(t-1))){ int s=__builtin_ctzll((u64)t); x=TRUE_; const auto b=bitsOf(X); for(int i=s;i<X->w;i++) x=mkAnd(x,NOT(b[i])); noteEq(x,X,t,true); }
    else x=mkLinLit(B_NEG,mkLin0(l.c,l.t)); }
  else x=mkLinLit(B_NEG,mkLin0(l.c,l.t));
  return ng?NOT(x):x; }
static Lit opCmp(int op,W*a,W*b){ if(a==b) return FALSE_; W*x=mkOp(1,op,{a,b},0,nullptr,0,1,0); return mkBitOf(x,0); }
Lit cUlt(W*a,W*b,Fact*f){
  if(isC(a)&&isC(b)) return a->c<b->c; if(isC(b)&&b->c==0) return FALSE_; if(a==b) return FALSE_;
  u64 al,ah,bl,bh; urange(a,f,al,ah); urange(b,f,bl,bh); if(ah<bl) return TRUE_; if(al>=bh) return FALSE_;
  LinF x,y; if(idealU(a,f,x)&&idealU(b,f,y)){ addInto(x,y,-1); return cNeg(x,f); }
  if(isC(a)&&a->c==0) return NOT(cEq(b,a,f)); if(isC(b)&&b->c==1) return cEq(a,mkConst(a->w,0),f);
  return opCmp(OP_ULT,a,b); }
Lit cSlt(W*a,W*b,Fact*f){
  if(isC(a)&&isC(b)) return sgn(a->w,a->c)<sgn(b->w,b->c); if(a==b) return FALSE_;
  LinF x,y; if(idealS(a,f,x)&&idealS(b,f,y)){ addInto(x,y,-1); return cNeg(x,f); }
  if(isC(b)&&b->c==0) return bitsOf(a)[a->w-1];
  if(isC(b)&&b->c==maskw(b->w)) { W*z=mkConst(a->w,0); return mkAnd(bitsOf(a)[a->w-1],NOT(cEq(a,mkConst(a->w,maskw(a->w)),f))); (void)z; }
  if(isC(a)&&a->c==maskw(a->w)) return NOT(bitsOf(b)[b->w-1]);
  return opCmp(OP_SLT,a,b); }
Lit cEq(W*a,W*b,Fact*f){
  if(a==b) return TRUE_; if(isC(a)&&isC(b)) return a->c==b->c; int w=a->w;
  if(a->k!=W_LIN&&b->k!=W_LIN){ 
    { u64 al,ah,bl,bh; urange(a,f,al,ah); urange(b,f,bl,bh); if(ah<bl||bh<al) return FALSE_; }
    if(f&&!isC(a)&&!isC(b)&&w<=32){ LinF l=toLin(a); addInto(l,toLin(b),-1); Range q=linRange(l,f); i128 M=(i128)1<<w; if(q.lo>-M&&q.hi<M&&(q.lo>0||q.hi<0)) return FALSE_; }
    const auto x=bitsOf(a); const auto&y=bitsOf(b); Lit r=TRUE_; 
    for(int i=0;i<w;i++){ r=mkAnd(r,mkEqv(x[i],y[i])); if(r==FALSE_) return r; }
    if(isC(b)){ LinF l=toLin(a); if(l.t.size()==1&&l.t[0].second==1&&l.t[0].first->w>1){ i64 v=(i64)b->c-l.c; if(v>=0) noteEq(r,l.t[0].first,v,false); } }
    else if(isC(a)) return cEq(b,a,f);
    return r; }
  LinF l=toLin(a); addInto(l,toLin(b),-1); size_t j=0; for(auto&p:l.t){ i64 s=sgn(w,(u64)p.second); if(s) l.t[j++]={p.first,s}; } l.t.resize(j); l.c=sgn(w,(u64)l.c);
  if(l.t.empty()) return l.c==0;
  Range r=linRange(l,f); i128 M=(i128)1<<w; bool ideal= r.lo>-M&&r.hi<M;
  if(ideal&&(r.lo>0||r.hi<0)) return FALSE_;
  if(ideal&&l.t.size()==1){ i64 c=l.t[0].second; if(l.c%c) return FALSE_; i64 v=-l.c/c; W*X=l.t[0].first; if(v<0) return FALSE_; if(X->w<64&&(u64)v>maskw(X->w)) return FALSE_; if(X->k!=W_LIN) return cEq(X,mkConst(X->w,v),f); }
  if(ideal&&l.t.size()==2&&l.c==0&&l.t[0].second==-l.t[1].second&&l.t[0].first->k!=W_LIN&&l.t[1].first->k!=W_LIN){ int m=max(l.t[0].first->w,l.t[1].first->w); return cEq(wZext(l.t[0].first,m,f),wZext(l.t[1].first,m,f),f); }
  if(ideal){ i64 g=0; for(auto&p:l.t) g=igcd(g,p.second); if(l.c%g) return FALSE_; for(auto&p:l.t) p.second/=g; l.c/=g; if(l.t[0].second<0){ for(auto&p:l.t) p.second=-p.second; l.c=-l.c; } return mkLinLit(B_EQZ,mkLin0(l.c,l.t)); }
  W*d=mkLin(w,l.c,l.t); if(d->k!=W_LIN) return cEq(d,mkConst(w,0),f); if(d->t[0].second<0) d=wNeg(d); return d->k==W_LIN? mkLinLit(B_EQZ,d): cEq(d,mkConst(w,0),f); }
static u64 havocCnt=0;
W* mkHavoc(int w,const string&name,i128 lo,i128 hi,u32 attr){ H h; h.add(name); h.add(++havocCnt); W*x=mkOp(w,OP_HAVOC,{},(u64)h.get(),nullptr,lo,hi,attr); return x; }

// ---------------- arrays
static Arr* internA(u128 h,const function<Arr*()>&f){ auto it=arrIntern.find(h); if(it!=arrIntern.end()) return it->second; Arr*a=f(); a->h=h; a->id=arrIds++; arrIntern[h]=a; return a; }
static u64 baseCnt=0;
Arr* mkBase(const string&name,u32 elem,u64 lo,u64 hi,u32 attr,bool fresh){ H h; h.add((u64)0xBA5E).add(name).add((u64)elem).add(lo).add(hi); h.add((u64)attr); if(fresh) h.add(++baseCnt);
  return internA(h.get(),[&]{ Arr*a=new Arr(); a->k=A_BASE; a->name=name; a->elem=elem; a->elo=lo; a->ehi=hi; a->attr=attr; return a; }); }
Arr* mkConstB(u8 v){ H h; h.add((u64)0xC0B).add((u64)v); return internA(h.get(),[&]{ Arr*a=new Arr(); a->k=A_CONSTB; a->cb=v; return a; }); }
Arr* mkIteArr(Lit c,Arr*a,Arr*b,W*d){ if(c==TRUE_) return a; if(isC(d)&&d->c==0){ if(a==b||c==FALSE_) return b; if(c&1){ swap(a,b); c=NOT(c); } }
  H h; h.add((u64)0x17E).add(bsig(c)).add(a->h).add(b->h).add(d->h);
  return internA(h.get(),[&]{ Arr*r=new Arr(); r->k=A_ITE; r->c=c; r->a=a; r->b=b; r->d=d; r->attr=a->attr|b->attr|litAttr(c); return r; }); }
Arr* mkBytesArr(const vector<W*>&b){ H h; h.add((u64)0xB17E5).add((u64)b.size()); for(W*x:b) h.add(x->h);
  return internA(h.get(),[&]{ Arr*a=new Arr(); a->k=A_BYTES; a->bytes=b; a->elo=255; a->ehi=0; a->cb=1; for(W*x:b){ a->attr|=x->attr; if(!isC(x)) a->cb=0; u64 lo,hi; urange(x,nullptr,lo,hi); a->elo=min(a->elo,lo); a->ehi=max(a->ehi,hi); } return a; }); }
Arr* mkChainArr(u128 hh,u32 attr){ H h; h.add((u64)0xC4A1).add(hh); return internA(h.get(),[&]{ Arr*a=new Arr(); a->k=A_CHAIN; a->attr=attr; a->name="chain"; return a; }); }
Arr* mkSpongeArr(const string&variant,int phase,TNode*t,W*q){ H h; h.add((u64)0x5B0).add(variant).add((u64)phase).add(t?t->h:(u128)0).add(q?q->h:(u128)0);
  return internA(h.get(),[&]{ Arr*a=new Arr(); a->k=A_SPONGE; a->variant=variant; a->phase=phase; a->t=t; a->q=q; return a; }); }
W* selByte(Arr*a,W*off){
  if(a->k==A_CONSTB) return mkConst(8,a->cb);
  if(a->k==A_BYTES){ if(isC(off)){ if(off->c>=a->bytes.size()) return mkHavoc(8,"oob",0,255,A_UNINIT); return a->bytes[off->c]; } return mkOp(8,OP_SEL,{off},1,a,a->elo,a->ehi,0); }
  if(a->k==A_BASE&&a->elem>1){ W*e; int n=a->elem; int r;
    if(isC(off)){ r=off->c%n; e=mkOp(8*n,OP_SEL,{mkConst(64,off->c-r)},n,a,a->elo,a->ehi,0); }
    else { LinF l=toLin(off); bool ok=true; for(auto&p:l.t) if(p.second%n) ok=false; if(!ok) return mkOp(8,OP_SEL,{off},1,a,0,255,0); r=((l.c%n)+n)%n; e=mkOp(8*n,OP_SEL,{wSub(off,mkConst(64,r))},n,a,a->elo,a->ehi,0); }
    return wByte(e,r); }
  return mkOp(8,OP_SEL,{off},1,a,a->k==A_BASE?a->elo:0,a->k==A_BASE?a->ehi:255,0); }
Arr* arrResolve(Arr*a,W*&off,Fact*f){ while(a->k==A_ITE){ Lit c=litReduce(a->c,f); if(c==TRUE_) a=a->a; else if(c==FALSE_){ off=wAdd(off,a->d); a=a->b; } else { 
      W*o1=off; W*o2=wAdd(off,a->d); Arr*xa=a->a,*ya=a->b; 
      // inside a branch its condition is known: drop nested alternatives it excludes
      auto peel=[&](Arr*x,W*&o,Lit l){ if(x->k!=A_ITE) return x; Fact*g=factAssume(f,l,true); if(!g) return x; while(x->k==A_ITE){ int v=litEval(x->c,g); if(v==1) x=x->a; else if(v==0){ o=wAdd(o,x->d); x=x->b; } else break; } return x; };
      xa=peel(xa,o1,c); ya=peel(ya,o2,NOT(c)); Arr*x=arrResolve(xa,o1,f); Arr*y=arrResolve(ya,o2,f);
      if(x==y&&o1==o2){ off=o1; return x; }
      if(c==a->c&&x==a->a&&y==a->b) return a; 
      if(x!=a->a||y!=a->b||c!=a->c){ W*nd=wSub(o2,o1); Arr*r=mkIteArr(c,x,y,nd); off=o1; return r; } return a; } } return a; }
W* selElem(Arr*a,W*off,int n,Fact*f){ a=arrResolve(a,off,f); vector<W*> v; for(int i=0;i<n;i++) v.push_back(selByte(a,wAdd(off,mkConst(64,i)))); return wConcat(v); }

// ---------------- finite value tables
struct Tab { vector<W*> leaves; vector<Lit> bleaves; vector<pair<int,const void*>> order; unordered_map<W*,int> wi; unordered_map<u32,int> bi; int bits=0; int maxb; bool bad=false; u32 nodes=0;
  void visitB(u32 id){ if(bad||bi.count(id)) return; if(++nodes>200000){bad=true;return;} const BN n=BNs[id];
    switch(n.k){ case B_CONST: break; case B_BITOF: visitW(n.w); break; case B_AND: { vector<Lit> v; setVec(n.set,v); for(Lit l:v) visitB(l>>1); break; } case B_XOR: visitB(n.x>>1); visitB(n.y>>1); break; case B_NEG: case B_EQZ: visitW(n.w); break; default: bad=true; }
    if(bad) return; bi[id]=order.size(); order.push_back({0,(void*)(size_t)id}); }
  void visitW(W*w){ if(bad||wi.count(w)) return; if(++nodes>200000){bad=true;return;}
    switch(w->k){ case W_CONST: break; case W_BITS: for(Lit l:w->b) visitB(l>>1); break; case W_LIN: for(auto&p:w->t) visitW(p.first); break;
    case W_OP: if(w->op==OP_SEL&&w->arr->k==A_ITE&&w->w==8){ Arr*r=w->arr; visitB(r->c>>1); visitW(selByte(r->a,w->a[0])); visitW(selByte(r->b,wAdd(w->a[0],r->d))); }
      else if(w->op==OP_SEL&&w->arr->k==A_BYTES&&w->arr->cb) visitW(w->a[0]);
      else if(w->op==OP_SEL||w->op==OP_HAVOC||w->op==OP_UFRET){ u64 span=(u64)w->hi; int b=0; while(b<64&&(span>>b)) b++; bits+=b; if(bits>maxb){bad=true;return;} leaves.push_back(w); }
      else { if(w->op==OP_ITE) visitB(((Lit)w->c)>>1); for(W*x:w->a) visitW(x); } }
    if(bad) return; wi[w]=order.size(); order.push_back({1,w}); } };
static const int BLK=2048;
static bool support(Lit l,Tab&t,int maxb){ t.maxb=maxb; t.visitB(l>>1); return !t.bad; }
static HMap<int> tabMemo;
bool tableProve(Lit goal,Fact*f,string*why,int maxb){
  if(goal==TRUE_) return true;
  Lit g=litReduce(goal,f); if(g==TRUE_) return true; if(g==FALSE_){ if(why)*why="false on every execution reaching it"; return false; }
  // conjunction: prove each member separately
  if(!(g&1)&&BNs[g>>1].k==B_AND&&BNs[g>>1].set->n<=100000){ Tab t0; if(!support(g,t0,maxb)){ vector<Lit> v; setVec(BNs[g>>1].set,v); for(Lit l:v) if(!tableProve(l,f,why,maxb)) return false; return true; } }
  Tab t; if(!support(g,t,maxb)){ if(why)*why="not derivable: "+litStr(g); return false; }
  set<W*> ls(t.leaves.begin(),t.leaves.end());
  // facts restricted to the same leaves
  vector<Lit> hyp; { int cnt=0; for(Fact*x=f;x&&x->parent&&cnt<400;x=x->parent,cnt++){ if(x->rw) continue; if(!x->pc&&cnt>40) continue; Tab q; if(!support(x->lit,q,maxb)) continue; bool sub=true; for(W*l:q.leaves) if(!ls.count(l)) sub=false; if(sub&&q.leaves.size()){ hyp.push_back(x->lit); t.visitB(x->lit>>1); if(hyp.size()>=24) break; } } }
  vector<pair<u64,u64>> rg; u64 total=1; for(W*l:t.leaves){ u64 lo,hi; urange(l,f,lo,hi); rg.push_back({lo,hi}); total*=(hi-lo+1); }
  if(total>(1ULL<<(maxb+1))){ if(why)*why="domain too large"; return false; }
  // memo by shape
  H mh; mh.add((u64)7); mh.add(bsig(g)); for(Lit l:hyp) mh.add(bsig(l)); for(auto&r:rg) mh.add(r.first).add(r.second); auto mm=tabMemo.find(mh.get()); if(mm!=tabMemo.end()&&mm->second) return true;
  stTables++; stTableRows+=total;
  vector<vector<u64>> val(t.order.size(),vector<u64>(BLK)); 
  for(u64 base=0;base<total;base+=BLK){ int n=(int)min<u64>(BLK,total-base);
    for(size_t i=0;i<t.order.size();i++){ auto&o=val[i];
      auto WV=[&](W*w)->vector<u64>&{ return val[t.wi[w]]; };
      if(t.order[i].first==0){ u32 id=(u32)(size_t)t.order[i].second; const BN nd=BNs[id];
        switch(nd.k){ case B_CONST: fill(o.begin(),o.end(),0); break;
        case B_BITOF: { auto&x=WV(nd.w); for(int j=0;j<n;j++) o[j]=x[j]>>nd.idx&1; break; }
        case B_AND: { vector<Lit> v; setVec(nd.set,v); fill(o.begin(),o.end(),1); for(Lit l:v){ auto&x=val[t.bi[l>>1]]; for(int j=0;j<n;j++) o[j]&=x[j]^(l&1); } break; }
        case B_XOR: { auto&x=val[t.bi[nd.x>>1]];auto&y=val[t.bi[nd.y>>1]]; u64 k=(nd.x^nd.y)&1; for(int j=0;j<n;j++) o[j]=x[j]^y[j]^k; break; }
        default: { for(int j=0;j<n;j++){ i128 s=(i64)nd.w->c; for(auto&p:nd.w->t) s+=(i128)p.second*(i128)WV(p.first)[j]; if(nd.k==B_NEG) o[j]=s<0; else if(nd.w->w==0) o[j]=s==0; else o[j]=((u64)s&maskw(nd.w->w))==0; } } } }
      else { W*w=(W*)t.order[i].second; u64 m=maskw(w->w?w->w:64);
        if(w->k==W_CONST) fill(o.begin(),o.end(),w->c);
        else if(w->k==W_BITS){ fill(o.begin(),o.end(),0); for(int b=0;b<w->w;b++){ Lit l=w->b[b]; if(l==FALSE_) continue; auto&x=val[t.bi[l>>1]]; for(int j=0;j<n;j++) o[j]|=(x[j]^(l&1))<<b; } }
        else if(w->k==W_LIN){ for(int j=0;j<n;j++){ u64 s=w->c; for(auto&p:w->t) s+=(u64)p.second*WV(p.first)[j]; o[j]=s&m; } }
        else if(w->op==OP_SEL&&w->arr->k==A_ITE&&w->w==8){ Arr*r=w->arr; auto&c=val[t.bi[r->c>>1]]; auto&x=WV(selByte(r->a,w->a[0]));auto&y=WV(selByte(r->b,wAdd(w->a[0],r->d))); for(int j=0;j<n;j++) o[j]=(c[j]^(r->c&1))?x[j]:y[j]; }
        else if(w->op==OP_SEL&&w->arr->k==A_BYTES&&w->arr->cb){ auto&x=WV(w->a[0]); for(int j=0;j<n;j++) o[j]= x[j]<w->arr->bytes.size()? w->arr->bytes[x[j]]->c: 0; }
        else if(w->op==OP_SEL||w->op==OP_HAVOC||w->op==OP_UFRET){ size_t li=find(t.leaves.begin(),t.leaves.end(),w)-t.leaves.begin(); u64 div=1; for(size_t q=0;q<li;q++) div*=rg[q].second-rg[q].first+1; u64 span=rg[li].second-rg[li].first+1; for(int j=0;j<n;j++) o[j]=rg[li].first+((base+j)/div)%span; }
        else { vector<u64>*A=w->a.size()>0?&WV(w->a[0]):nullptr,*B=w->a.size()>1?&WV(w->a[1]):nullptr; vector<u64>*C=w->op==OP_ITE?&val[t.bi[((Lit)w->c)>>1]]:nullptr; int aw=w->a.empty()?0:w->a[0]->w;
          for(int j=0;j<n;j++){ u64 x=A?(*A)[j]:0,y=B?(*B)[j]:0,r=0; i64 sx=sgn(aw,x),sy=sgn(aw,y);
            switch(w->op){ case OP_MUL:r=x*y;break; case OP_UREM:r=y?x%y:0;break; case OP_UDIV:r=y?x/y:0;break; case OP_SREM:r=(sy&&sy!=-1)?(u64)(sx%sy):0;break; case OP_SDIV:r=(sy&&sy!=-1)?(u64)(sx/sy):(u64)-sx;break; case OP_SHL:r=y<64?x<<y:0;break; case OP_LSHR:r=y<64?x>>y:0;break; case OP_ASHR:r=(u64)(sx>>(y<63?y:63));break; case OP_ITE:r=((*C)[j]^(w->c&1))?x:y;break; case OP_ULT:r=x<y;break; case OP_SLT:r=sx<sy;break; }
            o[j]=r&m; } } } }
    auto&G=val[t.bi[g>>1]];
    for(int j=0;j<n;j++) if(!(G[j]^(g&1))){ bool ok=true; for(Lit h:hyp) if(!(val[t.bi[h>>1]][j]^(h&1))){ok=false;break;} if(ok){ if(why){ *why="fails e.g. for "; for(size_t q=0;q<t.leaves.size();q++){ char buf[64]; snprintf(buf,64,"=%llu ",(unsigned long long)val[t.wi[t.leaves[q]]][j]); *why+=wStr(t.leaves[q],2)+buf; } } return false; } } }
  tabMemo[mh.get()]=1; return true; }

// ---------------- printing
string arrStr(Arr*a){ switch(a->k){ case A_BASE: return a->name; case A_CONSTB: return "bytes("+to_string(a->cb)+")"; case A_ITE: return "ite("+litStr(a->c,1)+","+arrStr(a->a)+","+arrStr(a->b)+")"; case A_SPONGE: return "sponge-state("+a->variant+")"; case A_BYTES: return "bytes[..]"; case A_CHAIN: return "sequence"; } return "?"; }
string litStr(Lit l,int d){ if(l<=1) return l?"true":"false"; string s=(l&1)?"!":""; const BN&n=BNs[l>>1]; if(d<=0) return s+"b"+to_string(l>>1);
  switch(n.k){ case B_BITOF: return s+wStr(n.w,d-1)+"["+to_string(n.idx)+"]"; case B_NEG: return s+"("+wStr(n.w,d-1)+" < 0)"; case B_EQZ: return s+"("+wStr(n.w,d-1)+" == 0)";
  case B_XOR: return s+"("+litStr(n.x,d-1)+" ^ "+litStr(n.y,d-1)+")"; case B_AND: { if(n.eqw) return s+"("+wStr(n.eqw,d-1)+((n.eqc>>62&1)?" < ":" == ")+to_string(n.eqc&((1ULL<<62)-1))+")"; vector<Lit> v; setVec(n.set,v); string r=s+"and("; for(size_t i=0;i<v.size()&&i<4;i++) r+=(i?",":"")+litStr(v[i],d-1); if(v.size()>4) r+=",..."+to_string(v.size()); return r+")"; } default: return s+"b"+to_string(l>>1); } }
string wStr(W*w,int d){ if(w->k==W_CONST) return to_string(w->c); if(d<=0) return "w"+to_string(w->id);
  if(w->k==W_LIN){ string r; int k=0; for(auto&p:w->t){ if(k++>=6){ r+="+..."; break;} r+=(r.empty()?"":"+")+(p.second==1?"":to_string(p.second)+"*")+wStr(p.first,d-1); } if((i64)w->c) r+=((i64)w->c>0?"+":"")+to_string((i64)w->c); return r; }
  if(w->k==W_BITS){ if(w->w==1) return litStr(w->b[0],d-1); W*X=nullptr; for(Lit l:w->b) if(l>1&&BNs[l>>1].k==B_BITOF){ X=BNs[l>>1].w; break; } return "bits"+to_string(w->w)+"("+(X?wStr(X,d-1):litStr(w->b[0],d-1))+"..)"; }
  static const char*nm[]={"","mul","urem","udiv","srem","sdiv","shl","lshr","ashr","ite","sel","any","uf"};
  if(w->op==OP_SEL) return arrStr(w->arr)+"["+wStr(w->a[0],d-1)+"]"; if(w->op==OP_ITE) return "ite("+litStr((Lit)w->c,d-1)+","+wStr(w->a[0],d-1)+","+wStr(w->a[1],d-1)+")";
  string r=w->op<13?nm[w->op]:"cmp"; r+="("; for(size_t i=0;i<w->a.size();i++) r+=(i?",":"")+wStr(w->a[i],d-1); if(w->op==OP_HAVOC) r+="#"+to_string(w->id); return r+")"; }
