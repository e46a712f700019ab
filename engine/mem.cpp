#include "mem.h"
vector<RegInfo> Regs(1); unordered_map<W*,int> baseReg; static u64 serials=0;
int newRegion(const string&name,W*size){ RegInfo r; r.id=Regs.size(); r.name=name; r.size=size; r.base=mkHavoc(64,"&"+name,1<<20,((i128)1<<62)); r.uninit=mkBase("uninit:"+name,1,0,255,A_UNINIT,true); baseReg[r.base]=r.id; Regs.push_back(r); return r.id; }
RP initContent(int rid){ RegInfo&r=Regs[rid]; RP c=make_shared<RegC>(); if(isC(r.size)){ if(r.size->c) c->segs[0]=runP(r.uninit,C64(0),r.size->c); } else { c->sym=r.uninit; c->symoff=C64(0); } return c; }
RP* findReg(State&s,int rid){ size_t lo=0,hi=s.mem.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(s.mem[m].first<rid) lo=m+1; else hi=m; } if(lo<s.mem.size()&&s.mem[lo].first==rid) return &s.mem[lo].second; return nullptr; }
RegC& mutReg(State&s,int rid){ RP*p=findReg(s,rid); if(p->use_count()>1){ auto n=make_shared<RegC>(); n->segs=(*p)->segs; n->log=(*p)->log; n->sym=(*p)->sym; n->symoff=(*p)->symoff; *p=n; } (*p)->snap.clear(); (*p)->chain=0; return **p; }
PD decodePtr(W*p){ if(isC(p)) return {0,p}; LinF l=toLin(p); int rid=0; LinF o; o.c=l.c; for(auto&t:l.t){ auto it=baseReg.find(t.first); if(it!=baseReg.end()){ if(rid||t.second!=1) return {-1,p}; rid=it->second; } else o.t.push_back(t); } if(!rid) return {0,p}; return {rid,mkLin(64,o.c,o.t)}; }
Blob blobSub(const Blob&b,u64 o,u64 n){ Blob r; for(auto&p:b){ if(!n) break; if(p.sn){ // symbolic length piece: only usable when last
        if(p.arr){ r.push_back(runP(p.arr,wAdd(p.off,C64(o)),n)); n=0; break; } unsupported("blobSub"); }
    if(o>=p.n){ o-=p.n; continue; } u64 m=min(n,p.n-o); r.push_back(subP(p,o,m)); n-=m; o=0; } if(n) unsupported("blobSub past end"); return r; }
vector<W*> blobBytes(const Blob&b){ vector<W*> v; for(auto&p:b){ if(p.sn) unsupported("bytes of symbolic-length content"); for(u64 i=0;i<p.n;i++) v.push_back(p.byte(i)); } return v; }
u32 blobAttr(const Blob&b){ u32 a=0; for(auto&p:b){ if(p.arr) a|=p.arr->attr|(p.off->attr&0); else for(u64 i=0;i<p.n;i++) a|=(*p.cells)[p.cs+i]->attr; } return a; }
// cell == arr[off] ?
static bool asSel(W*c,Arr*&arr,W*&off){
  if(c->k==W_OP&&c->op==OP_SEL&&c->w==8){ arr=c->arr; off=c->a[0]; return true; }
  if(c->k==W_BITS&&c->w==8){ for(Lit l:c->b) if(l>1){ if(l&1) return false; BN&n=BNs[l>>1]; if(n.k!=B_BITOF||n.w->k!=W_OP||n.w->op!=OP_SEL) return false; W*S=n.w; int e=S->w/8; if(e<2) return false; W*o=wAdd(S->a[0],C64(n.idx/8)); if(selByte(S->arr,o)!=c) return false; arr=S->arr; off=o; return true; } }
  return false; }
Blob canonBlob(const Blob&b,Fact*f){ Blob r; 
  auto addRun=[&](Arr*a,W*off,u64 n,W*sn){ if(!r.empty()&&r.back().arr==a&&!r.back().sn){ if(wAdd(r.back().off,C64(r.back().n))==off){ if(sn){ r.back().sn=wAdd(sn,C64(r.back().n)); r.back().n=0; } else r.back().n+=n; return; } }
    else if(!r.empty()&&r.back().arr==a&&r.back().sn&&wAdd(r.back().off,r.back().sn)==off){ r.back().sn=wAdd(r.back().sn,sn?sn:C64(n)); return; }
    Piece p; p.arr=a;p.off=off;p.n=n;p.sn=sn; if(sn){p.n=0;} r.push_back(p); };
  auto addCell=[&](W*c){ if(r.empty()||r.back().arr) r.push_back(cellsP({})); else if(r.back().cells.use_count()>1||r.back().cs||r.back().cells->size()!=r.back().n){ vector<W*> v; for(u64 i=0;i<r.back().n;i++) v.push_back(r.back().byte(i)); r.back()=cellsP(move(v)); } r.back().cells->push_back(c); r.back().n++; };
  for(auto&p:b){ if(p.sn){ Arr*a=p.arr; W*o=p.off; if(f) a=arrResolve(a,o,f); addRun(a,o,0,p.sn); continue; } if(!p.n) continue;
    if(p.arr){ Arr*a=p.arr; W*o=p.off; if(f) a=arrResolve(a,o,f);
      if(a->k==A_CONSTB){ for(u64 i=0;i<p.n;i++) addCell(mkConst(8,a->cb)); continue; }
      if(a->k==A_BYTES&&isC(o)){ for(u64 i=0;i<p.n;i++){ W*c=selByte(a,wAdd(o,C64(i))); Arr*x;W*xo; if(asSel(c,x,xo)) addRun(x,xo,1,nullptr); else addCell(c); } continue; }
      addRun(a,o,p.n,nullptr); continue; }
    for(u64 i=0;i<p.n;i++){ W*c=(*p.cells)[p.cs+i]; if(f) c=wReduce(c,f); Arr*x;W*xo; if(isC(c)) addCell(c); else if(asSel(c,x,xo)) addRun(x,xo,1,nullptr); else addCell(c); } }
  return r; }
u128 blobHash(const Blob&b0){ Blob b=canonBlob(b0); H h; for(auto&p:b){ if(p.arr){ h.add((u64)1).add(p.arr->h).add(p.off->h).add(p.sn?p.sn->h:(u128)p.n); } else { h.add((u64)2).add(p.n); for(u64 i=0;i<p.n;i++) h.add((*p.cells)[p.cs+i]->h); } } return h.get(); }
// ---- segments
static void splitAt(map<u64,Piece>&s,u64 pos){ auto it=s.upper_bound(pos); if(it==s.begin()) return; --it; u64 st=it->first; Piece&p=it->second; if(st==pos||st+p.n<=pos) return; Piece r=subP(p,pos-st,st+p.n-pos); p=subP(p,0,pos-st); s[pos]=r; }
static void segWrite(map<u64,Piece>&s,u64 off,const Blob&b){ u64 n=blobLen(b); if(!n) return;
  auto it=s.upper_bound(off); if(it!=s.begin()){ --it; Piece&p=it->second; 
    if(p.cells&&off>=it->first&&off+n<=it->first+p.n&&n<=256){ // in place
      if(p.cells.use_count()>1||p.cells->size()>512){ vector<W*> v((*p.cells).begin()+p.cs,(*p.cells).begin()+p.cs+p.n); p=cellsP(move(v)); }
      u64 o=off-it->first; for(auto&q:b) for(u64 i=0;i<q.n;i++) (*p.cells)[p.cs+o++]=q.byte(i); return; } }
  splitAt(s,off); splitAt(s,off+n); s.erase(s.lower_bound(off),s.lower_bound(off+n));
  u64 o=off; for(auto&q:b){ if(!q.n) continue; 
    auto pv=s.lower_bound(o); bool merged=false; if(pv!=s.begin()){ --pv; Piece&p=pv->second; if(pv->first+p.n==o){
        if(q.cells&&p.cells&&p.n+q.n<=256){ if(p.cells.use_count()>1||p.cs||p.cells->size()!=p.n){ vector<W*> v((*p.cells).begin()+p.cs,(*p.cells).begin()+p.cs+p.n); p=cellsP(move(v)); } for(u64 i=0;i<q.n;i++) p.cells->push_back((*q.cells)[q.cs+i]); p.n+=q.n; merged=true; }
        else if(q.arr&&p.arr==q.arr&&wAdd(p.off,C64(p.n))==q.off){ p.n+=q.n; merged=true; } } }
    if(!merged) s[o]= q.cells&&q.n>256? q: (q.cells? subP(q,0,q.n): q); o+=q.n; } }
static Blob segRead(const map<u64,Piece>&s,u64 off,u64 n){ Blob r; if(!n) return r; auto it=s.upper_bound(off); if(it==s.begin()) unsupported("read outside region"); --it; while(n){ if(it==s.end()) unsupported("read outside region"); u64 o=off-it->first; if(o>=it->second.n) unsupported("hole in region"); u64 m=min(n,it->second.n-o); r.push_back(subP(it->second,o,m)); off+=m; n-=m; ++it; } return r; }
// log entry relation to [off,off+len)
enum Rel { DISJ, COVER, SAME, UNK };
static bool provedLE0(const LinF&l,Fact*f){ Range r=linRange(l,f); return r.hi<=0; } // l <= 0
static LinF linSub(W*a,W*b,i64 c=0){ LinF l=toLin(a); LinF m=toLin(b); l.c=l.c-m.c+c; for(auto&p:m.t) l.t.push_back({p.first,-p.second}); 
  sort(l.t.begin(),l.t.end(),[](auto&x,auto&y){return x.first->id<y.first->id;}); size_t j=0; for(size_t i=0;i<l.t.size();){ W*x=l.t[i].first; i64 s=0; while(i<l.t.size()&&l.t[i].first==x) s+=l.t[i++].second; if(s) l.t[j++]={x,s}; } l.t.resize(j); return l; }
static Rel relation(const LogE&e,W*off,W*len,Fact*f,i64*delta){
  LinF d=linSub(off,e.off); // off - e.off
  if(d.t.empty()){ i64 x=d.c; if(isC(e.len)&&isC(len)){ i64 el=e.len->c,n=len->c; if(x>=el||x+n<=0) return DISJ; if(x>=0&&x+n<=el){ *delta=x; return COVER; } return UNK; }
    if(x==0&&e.len==len){ *delta=0; return COVER; }
    if(x>=0&&provedLE0(linSub(wAdd(C64(x),len),e.len),f)){ *delta=x; return COVER; }
    if(x<0&&isC(len)&&x+(i64)len->c<=0) return DISJ; }
  if(provedLE0(linSub(wAdd(e.off,e.len),off),f)) return DISJ;
  if(provedLE0(linSub(wAdd(off,len),e.off),f)) return DISJ;
  if(isC(e.len)&&isC(len)&&e.len->c==len->c){ *delta=0; return SAME; }
  return UNK; }
static Blob iteBlob(Lit c,const Blob&a,const Blob&b){ // equal lengths
  Blob r; size_t i=0,j=0; u64 oi=0,oj=0; 
  while(i<a.size()&&j<b.size()){ const Piece&p=a[i];const Piece&q=b[j]; if(p.sn||q.sn){ if(p.sn&&q.sn&&p.sn==q.sn&&p.arr&&q.arr){ r.push_back(runS(mkIteArr(c,p.arr,q.arr,wSub(q.off,p.off)),p.off,p.sn)); i++;j++; continue; } unsupported("merge of symbolic-length contents"); }
    if(oi==p.n){i++;oi=0;continue;} if(oj==q.n){j++;oj=0;continue;}
    u64 m=min(p.n-oi,q.n-oj); Piece x=subP(p,oi,m),y=subP(q,oj,m);
    if(x.arr&&y.arr&&x.arr==y.arr&&x.off==y.off) r.push_back(x);
    else if(x.arr&&y.arr) r.push_back(runP(mkIteArr(c,x.arr,y.arr,wSub(y.off,x.off)),x.off,m));
    else { vector<W*> v(m); for(u64 t=0;t<m;t++) v[t]=wIte(c,x.byte(t),y.byte(t)); r.push_back(cellsP(move(v))); }
    oi+=m; oj+=m; }
  return r; }
static Blob havocBlob(W*len,u32 at,const char*why){ Arr*a=mkBase(string("havoc:")+why,1,0,255,at,true); return {runS(a,C64(0),len)}; }
static Blob readBase(State&s,RegC&c,int rid,W*off,W*len){
  if(c.sym) return {runS(c.sym,wAdd(c.symoff,off),len)};
  u64 size=Regs[rid].size->c;
  if(isC(off)&&isC(len)){ if(off->c+len->c>size||off->c>size) return havocBlob(len,A_UNINIT,"out of bounds"); return segRead(c.segs,off->c,len->c); }
  u64 lo,hi,l0,l1; urange(off,s.f,lo,hi); urange(len,s.f,l0,l1); if(lo>size) lo=0; if(hi>size) hi=size; u64 end= (l1>size||hi+l1>size)? size: hi+l1; if(end<lo) return havocBlob(len,A_UNINIT,"oob");
  // align hull to the access granularity to keep snapshots shared
  auto it=c.segs.upper_bound(lo); if(it!=c.segs.begin()){ --it; if(it->second.arr&&it->first+it->second.n>=end) return {runS(it->second.arr,wAdd(it->second.off,wSub(off,C64(it->first))),len)}; }
  auto key=make_pair(lo,end-lo); auto&sn=c.snap[key]; 
  if(!sn){ Blob b=segRead(c.segs,lo,end-lo); bool allu=true; 
    Blob cb=canonBlob(b); if(cb.size()==1&&cb[0].arr){ return {runS(cb[0].arr,wAdd(cb[0].off,wSub(off,C64(lo))),len)}; } (void)allu;
    if(end-lo>400000) return havocBlob(len,blobAttr(b),"large object"); 
    sn=mkBytesArr(blobBytes(b)); }
  return {runS(sn,wSub(off,C64(lo)),len)}; }
// maximal groups of log entries placed back to back: off[k+1]==off[k]+(g[k]?len[k]:0)
static W* stepOf(const LogE&e){ return e.g==TRUE_? e.len: isC(e.len)? wMulC(wZext(litW(e.g),64,nullptr),e.len->c): wIte(e.g,e.len,C64(0)); }
static void chainOf(const RegC&c){ if(c.chain) return; c.chain=1; c.cidx.clear(); c.csegs.clear(); c.cseg.assign(c.log.size(),0); 
  for(size_t k=0;k<c.log.size();k++){ const LogE&e=c.log[k]; if(c.csegs.empty()||c.csegs.back().cend!=e.off) c.csegs.push_back({k,k,nullptr,nullptr}); ChainSeg&g=c.csegs.back(); g.e=k+1; g.cend=wAdd(e.off,stepOf(e)); c.cidx[e.off]=k; c.cseg[k]=c.csegs.size()-1; } }
static Arr* chainArr(const RegC&c,ChainSeg&g,Lit vg,W*vlen,const Blob*v){ if(g.carr&&!v) return g.carr; H h; u32 at=0; if(v){ h.add(litW(vg)->h).add(vlen->h).add(blobHash(*v)); at|=blobAttr(*v); } for(size_t k=g.b;k<g.e;k++){ const LogE&e=c.log[k]; h.add(litW(e.g)->h).add(e.len->h).add(blobHash(e.c)); at|=blobAttr(e.c); } Arr*a=mkChainArr(h.get(),at); if(!v) g.carr=a; return a; }
extern bool joinHulls;
static bool hull(W*off,W*len,Fact*f,i128&lo,i128&hi){ if(counterLike(off)&&!haveEqualities()&&!joinHulls) f=nullptr; if(isC(off)){ lo=off->c; } else { Range r=linRange(toLin(off),f); lo=r.lo; if(isC(len)&&r.hi<((i128)1<<62)){ hi=r.hi+len->c; return lo>=0; } } Range r=linRange(toLin(wAdd(off,len)),f); hi=r.hi; return lo>=0&&hi<((i128)1<<62); }
static Blob readLog(State&s,RegC&c,int rid,W*off,W*len,size_t n){
  i128 rlo,rhi; bool rh=hull(off,len,s.f,rlo,rhi);
  auto later=[&](size_t k)->bool{ for(size_t j=k;j<c.log.size();j++){ const LogE&e=c.log[j]; if(rh&&(e.hhi<=rlo||e.hlo>=rhi)) continue; i64 d; if(relation(e,off,len,s.f,&d)!=DISJ) return false; } return true; };
  auto disjointRange=[&](size_t a,size_t b)->bool{ for(size_t j=a;j<b;j++){ const LogE&e=c.log[j]; if(rh&&(e.hhi<=rlo||e.hlo>=rhi)) continue; i64 d; if(relation(e,off,len,s.f,&d)!=DISJ) return false; } return true; };
  if(n==c.log.size()&&n>=1){ chainOf(c); auto it=c.cidx.find(off); if(it!=c.cidx.end()){ const LogE&e=c.log[it->second]; if(litEval(e.g,s.f)==1&&(e.len==len||(isC(e.len)&&isC(len)&&len->c<=e.len->c))&&later(c.csegs[c.cseg[it->second]].e)) return e.len==len? e.c: blobSub(e.c,0,len->c); }
    for(auto&g:c.csegs){ if(g.e-g.b<2) continue; LinF q=linSub(wAdd(off,len),g.cend); if(q.t.size()>4){ if(!isC(off)) continue; } const LogE&e0=c.log[g.b]; bool direct=off==e0.off; Lit vg=TRUE_; if(!direct){ if(!isC(off)) continue; LinF d=linSub(e0.off,off); if(!(isC(e0.len)&&d.t.size()==1&&((d.c==0&&d.t[0].second==(i64)e0.len->c)||(d.c==(i64)e0.len->c&&d.t[0].second==-(i64)e0.len->c)))) continue; bool neg=d.c!=0; W*x=d.t[0].first; if(x->k!=W_BITS&&x->w!=1) continue; const auto&b=bitsOf(x); bool one=true; for(size_t k=1;k<b.size();k++) if(b[k]!=FALSE_) one=false; if(!one) continue; vg=neg?NOT(b[0]):b[0]; }
      Range r=linRange(q,s.f); if(r.lo!=0||r.hi!=0||!later(g.e)) continue;
      if(direct) return {runS(chainArr(c,g,TRUE_,nullptr,nullptr),C64(0),len)};
      if(c.sym||!disjointRange(0,g.b)) continue; Fact*f1=factAssume(s.f,vg,true); if(!f1) continue; Blob v=canonBlob(segRead(c.segs,off->c,e0.len->c),f1); return {runS(chainArr(c,g,vg,e0.len,&v),C64(0),len)}; } }
  while(n>0){ const LogE&e=c.log[n-1]; i64 d=0; if(rh&&(e.hhi<=rlo||e.hlo>=rhi)){ n--; continue; } Rel r=relation(e,off,len,s.f,&d);
    if(r==DISJ){ n--; continue; }
    int g=litEval(e.g,s.f); if(g==0){ n--; continue; }
    if(r==COVER){ Blob b= (d==0&&e.len==len)? e.c: (isC(len)? blobSub(e.c,d,len->c): (e.c.size()==1&&e.c[0].arr? Blob{runS(e.c[0].arr,wAdd(e.c[0].off,C64(d)),len)}: Blob{})); if(b.empty()&&!(isC(len)&&len->c==0)) break;
      if(g==1) return b; Lit gl=litReduce(e.g,s.f); Blob rest=readLog(s,c,rid,off,len,n-1); return iteBlob(gl,b,rest); }
    if(r==SAME&&isC(len)&&len->c<=64){ // equal length; objects assumed aligned to their size: check divisibility of the distance
      LinF q=linSub(off,e.off); bool al=true; i64 L=len->c; if(q.c%L) al=false; for(auto&p:q.t) if(p.second%L) al=false;
      if(al||L==1){ Lit eq=mkAnd(litReduce(e.g,s.f),litReduce(cEq(off,e.off,s.f),s.f)); if(eq==TRUE_) return e.c; if(eq==FALSE_){ n--; continue; } Blob rest=readLog(s,c,rid,off,len,n-1); return iteBlob(eq,e.c,rest); } }
    // unknown overlap: try splitting the read at a constant boundary of the entry
    if(isC(len)&&isC(off)&&isC(e.off)&&isC(e.len)){ u64 a=off->c,b=a+len->c,x=e.off->c,y=x+e.len->c; vector<u64> cut{a}; if(x>a&&x<b) cut.push_back(x); if(y>a&&y<b) cut.push_back(y); cut.push_back(b); if(cut.size()>2){ Blob out; for(size_t i=0;i+1<cut.size();i++){ Blob z=readLog(s,c,rid,C64(cut[i]),C64(cut[i+1]-cut[i]),n); out.insert(out.end(),z.begin(),z.end()); } return out; } }
    if(isC(len)&&isC(e.len)&&len->c>1){ LinF q=linSub(e.off,off); if(q.t.empty()&&!(q.c<=0&&q.c+(i64)e.len->c>=(i64)len->c)){ i64 b=len->c,x=q.c,y=x+(i64)e.len->c; vector<i64> cut{0}; if(x>0&&x<b) cut.push_back(x); if(y>0&&y<b) cut.push_back(y); cut.push_back(b); if(cut.size()>2){ Blob out; for(size_t i=0;i+1<cut.size();i++){ Blob z=readLog(s,c,rid,wAdd(off,C64(cut[i])),C64(cut[i+1]-cut[i]),n); out.insert(out.end(),z.begin(),z.end()); } return out; } } }
    if(isC(len)&&len->c<=8&&len->c>1){ Blob out; for(u64 i=0;i<len->c;i++){ Blob z=readLog(s,c,rid,wAdd(off,C64(i)),C64(1),n); out.insert(out.end(),z.begin(),z.end()); } return out; }
    if(isC(len)&&len->c==1&&isC(e.len)&&e.len->c<=8){ Blob acc=readLog(s,c,rid,off,len,n-1); Lit gg=litReduce(e.g,s.f); for(u64 i=0;i<e.len->c;i++){ Lit eq=mkAnd(gg,litReduce(cEq(off,wAdd(e.off,C64(i)),s.f),s.f)); if(eq!=FALSE_) acc=iteBlob(eq,blobSub(e.c,i,1),acc); } return acc; }
    // read begins exactly where entry begins but is longer
    { LinF q=linSub(off,e.off); if(q.t.empty()&&q.c==0&&isC(e.len)&&g==1){ Blob out=e.c; W*rest=wSub(len,e.len); LinF rl=linSub(len,e.len); if(linRange(rl,s.f).lo>=0){ Blob z=readLog(s,c,rid,wAdd(off,e.len),rest,n); out.insert(out.end(),z.begin(),z.end()); return out; } } 
      if(q.t.empty()&&q.c==0&&e.len==len) {} }
    u32 at=0; for(auto&x:c.log) at|=blobAttr(x.c); if(c.sym) at|=c.sym->attr; for(auto&x:c.segs) at|=blobAttr({x.second}); return havocBlob(len,at,"overlapping writes"); }
  return readBase(s,c,rid,off,len); }
Blob readMem(State&s,int rid,W*off,W*len){ RP*p=findReg(s,rid); if(!p) return havocBlob(len,A_UNINIT,"dead object"); RegC&c=**p;
  if(!isC(off)&&!c.log.empty()){ chainOf(c); auto it=c.cidx.find(off); if(it!=c.cidx.end()){ auto&e=c.log[it->second]; if(litEval(e.g,s.f)==1&&(e.len==len||(isC(e.len)&&isC(len)&&len->c<=e.len->c))) return readLog(s,c,rid,off,len,c.log.size()); } }
  if(!isC(off)&&!counterLike(off)){ W*o=wReduce(off,s.f); off=o; } if(!isC(off)||!isC(len)){ u64 lo,hi; if(urange(off,s.f,lo,hi)&&lo==hi) off=C64(lo); if(urange(len,s.f,lo,hi)&&lo==hi) len=C64(lo); }
  if(isC(len)&&len->c==0) return {};
  if(c.log.empty()) return readBase(s,c,rid,off,len);
  return readLog(s,c,rid,off,len,c.log.size()); }
void writeMem(State&s,int rid,W*off,const Blob&b,W*len,u32 esz){ if(!findReg(s,rid)) return; W*raw=off; 
  if(!isC(off)&&!counterLike(off)) off=wReduce(off,s.f); { u64 lo,hi; if(!isC(off)&&!counterLike(off)&&urange(off,s.f,lo,hi)&&lo==hi) off=C64(lo); if(!isC(len)&&urange(len,s.f,lo,hi)&&lo==hi) len=C64(lo); }
  if(isC(len)&&len->c==0) return;
  RegC&c=mutReg(s,rid);
  if(isC(len)){ bool symp=false; blobLen(b,&symp); if(symp){ Blob nb; if(b.size()==1&&b[0].arr) nb={runP(b[0].arr,b[0].off,len->c)}; else unsupported("write length"); writeMem(s,rid,off,nb,len,esz); return; } }
  if(isC(off)&&isC(len)&&!c.sym){ u64 size=Regs[rid].size->c; if(off->c+len->c>size) return;
    bool conflict=false; if(off->c==0&&len->c==size) c.log.clear();
    for(size_t i=0;i<c.log.size();){ i64 d; LogE&e=c.log[i]; LinF q=linSub(e.off,off); if(q.t.empty()&&q.c>=0&&isC(e.len)&&q.c+e.len->c<=len->c){ c.log.erase(c.log.begin()+i); continue; } if(relation(e,off,len,s.f,&d)!=DISJ){ conflict=true; } i++; }
    if(!conflict){ segWrite(c.segs,off->c,b); return; } }
  if(c.sym&&isC(off)&&off->c==0&&len==Regs[rid].size) { c.log.clear(); if(b.size()==1&&b[0].arr){ c.sym=b[0].arr; c.symoff=b[0].off; return; } }
  // replaces the latest entry at the same place?
  off=raw; while(!c.log.empty()){ LogE&e=c.log.back(); LinF q=linSub(e.off,off); if(q.t.empty()&&q.c==0&&(e.len==len||(isC(e.len)&&isC(len)&&e.len->c<=len->c))) c.log.pop_back(); else break; }
  if(c.log.size()>20000) unsupported("too many symbolic writes");
  LogE e; e.off=off; e.len=len; e.c=b; e.esz=esz; e.serial=++serials; if(!hull(off,len,s.f,e.hlo,e.hhi)){ e.hlo=0; e.hhi=(i128)1<<70; } c.log.push_back(e); }
W* elemVal(const Blob&b,u32 n,Fact*f){ if(b.size()==1&&b[0].arr) return selElem(b[0].arr,b[0].off,n,f); return wConcat(blobBytes(b)); }

// ---- joins
bool joinHulls=false;
static bool sameBlob(const Blob&a,const Blob&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++){ if(a[i].n!=b[i].n||a[i].sn!=b[i].sn||a[i].arr!=b[i].arr||a[i].off!=b[i].off) return false; if(a[i].cells&&!(a[i].cells==b[i].cells&&a[i].cs==b[i].cs)) for(u64 k=0;k<a[i].n;k++) if(a[i].byte(k)!=b[i].byte(k)) return false; } return true; }
extern Arr* joinSponge(Lit c,Arr*a,Arr*b);
// alternatives excluded by what is known on the side they come from are dropped before two contents are merged
static W* peelIte(W*w,Fact*f){ while(f&&w->k==W_OP&&w->op==OP_ITE){ int v=litEval((Lit)w->c,f); if(v==1) w=w->a[0]; else if(v==0) w=w->a[1]; else break; } return w; }
static void peelArr(Piece&p,Fact*f){ while(f&&p.arr&&p.arr->k==A_ITE){ int v=litEval(p.arr->c,f); if(v==1) p.arr=p.arr->a; else if(v==0){ p.off=wAdd(p.off,p.arr->d); p.arr=p.arr->b; } else break; } }
static RP joinReg(RP A,RP B,Lit c,int rid,Fact*fA=nullptr,Fact*fB=nullptr){ if(A==B) return A; RP r=make_shared<RegC>(); r->sym=A->sym; r->symoff=A->symoff;
  if(A->sym!=B->sym||A->symoff!=B->symoff){ if(!A->sym||!B->sym) unsupported("join"); r->sym=mkIteArr(c,A->sym,B->sym,wSub(B->symoff,A->symoff)); }
  auto i=A->segs.begin(),j=B->segs.begin(); u64 oi=0,oj=0;
  while(i!=A->segs.end()&&j!=B->segs.end()){ Piece&p=i->second;Piece&q=j->second; if(oi==p.n){++i;oi=0;continue;} if(oj==q.n){++j;oj=0;continue;}
    u64 pos=i->first+oi; u64 m=min(p.n-oi,q.n-oj);
    if(p.cells&&q.cells&&p.cells==q.cells&&p.cs+oi==q.cs+oj){ segWrite(r->segs,pos,{subP(p,oi,m)}); oi+=m;oj+=m; continue; }
    Piece x=subP(p,oi,m),y=subP(q,oj,m);
    if(!(x.arr&&y.arr&&x.arr==y.arr&&x.off==y.off)){ peelArr(x,fA); peelArr(y,fB); }
    if(x.arr&&y.arr&&x.arr==y.arr&&x.off==y.off) segWrite(r->segs,pos,{x});
    else if(x.arr&&y.arr&&x.arr->k==A_SPONGE&&y.arr->k==A_SPONGE&&x.off==y.off&&isC(x.off)){ Arr*z=joinSponge(c,x.arr,y.arr); segWrite(r->segs,pos,{runP(z,x.off,m)}); }
    else if(x.arr&&y.arr) segWrite(r->segs,pos,{runP(mkIteArr(c,x.arr,y.arr,wSub(y.off,x.off)),x.off,m)});
    else { vector<W*> v(m); bool big=m>4096&&(x.arr||y.arr); (void)big; for(u64 t=0;t<m;t++){ W*a=x.byte(t),*b=y.byte(t); if(a!=b){ a=peelIte(a,fA); b=peelIte(b,fB); } v[t]=a==b?a:wIte(c,a,b); } segWrite(r->segs,pos,{cellsP(move(v))}); }
    oi+=m; oj+=m; }
  size_t k=0; while(k<A->log.size()&&k<B->log.size()&&A->log[k].serial==B->log[k].serial&&A->log[k].g==B->log[k].g) k++;
  r->log.assign(A->log.begin(),A->log.begin()+k);
  bool par=A->log.size()==B->log.size(); for(size_t t=k;par&&t<A->log.size();t++) if(A->log[t].off!=B->log[t].off||A->log[t].len!=B->log[t].len||A->log[t].g!=B->log[t].g) par=false;
  if(par){ for(size_t t=k;t<A->log.size();t++){ LogE e=A->log[t]; if(!sameBlob(e.c,B->log[t].c)) e.c=iteBlob(c,e.c,B->log[t].c); e.serial=++serials; r->log.push_back(e); } }
  else { for(size_t t=k;t<A->log.size();t++){ LogE e=A->log[t]; e.g=mkAnd(e.g,c); if(e.g==FALSE_) continue; e.serial=++serials; r->log.push_back(e); } for(size_t t=k;t<B->log.size();t++){ LogE e=B->log[t]; e.g=mkAnd(e.g,NOT(c)); if(e.g==FALSE_) continue; e.serial=++serials; r->log.push_back(e); } }
  return r; }
static Val joinVal(Lit c,const Val&a,const Val&b){ if(a==b) return a; Val r; if((!a.w&&!a.v)||(!b.w&&!b.v)) return r; if(a.w&&b.w&&a.w->w==b.w->w){ r.w=wIte(c,a.w,b.w); return r; } if(a.v&&b.v&&a.v->size()==b.v->size()){ r.v=make_shared<vector<Val>>(); for(size_t i=0;i<a.v->size();i++) r.v->push_back(joinVal(c,(*a.v)[i],(*b.v)[i])); } return r; }
static Lit firstPc(Fact*f,Fact*a){ Lit r=TRUE_; while(f!=a){ if(f->pc) r=f->lit; f=f->parent; } return r; }
State joinStates(State&a,State&b,const function<bool(int)>&isPhi){
  Fact*l=lca(a.f,b.f); Lit cA=suffixAnd(a.f?a.f:l,l),cB=suffixAnd(b.f?b.f:l,l); Lit fa=firstPc(a.f?a.f:l,l),fb=firstPc(b.f?b.f:l,l);
  Lit c,D; if(fa==NOT(fb)&&fa>1){ c=fa; D=mkOr(cA,cB); } else { c=cA; D=mkOr(cA,cB); if(cA==NOT(cB)) D=TRUE_; }
  State r; r.allocas=a.allocas; r.f=l; 
  if(D!=TRUE_){ Fact*nf=factAssume(l,D,true); if(nf) r.f=nf; }
  r.regs.resize(a.regs.size()); for(size_t i=0;i<a.regs.size();i++){ if(a.regs[i]==b.regs[i]) r.regs[i]=a.regs[i]; else if(isPhi((int)i)) r.regs[i]=joinVal(c,a.regs[i],b.regs[i]); }
  if(joinHulls) for(size_t i=0;i<r.regs.size();i++) if(r.regs[i].w&&!(a.regs[i]==b.regs[i])&&!isC(r.regs[i].w)&&r.regs[i].w->w>1&&r.regs[i].w->w<=64){ W*m=r.regs[i].w; u64 al,ah,bl,bh; if(!urange(wReduce(a.regs[i].w,a.f),a.f,al,ah)||!urange(wReduce(b.regs[i].w,b.f),b.f,bl,bh)) continue; r.f=factHull(r.f,m,(i128)min(al,bl),(i128)max(ah,bh)); }
  size_t i=0,j=0; while(i<a.mem.size()&&j<b.mem.size()){ if(a.mem[i].first<b.mem[j].first){i++;continue;} if(a.mem[i].first>b.mem[j].first){j++;continue;} r.mem.push_back({a.mem[i].first,joinReg(a.mem[i].second,b.mem[j].second,c,a.mem[i].first,a.f,b.f)}); i++;j++; }
  return r; }
State joinAll(vector<State>&v,const function<bool(int)>&isPhi){ vector<State> st; auto dep=[&](State&x,State&y){ Fact*l=lca(x.f,y.f); return l?l->depth:0; };
  if(v.size()>2) stable_sort(v.begin(),v.end(),[](const State&x,const State&y){ Fact*a=x.f,*b=y.f; if(a==b||!a||!b) return a<b&&!a; Fact*l=lca(a,b); if(l==a) return true; if(l==b) return false; return anc(a,l->depth+1)->id<anc(b,l->depth+1)->id; });
  for(auto&x:v){ while(st.size()>=2&&dep(st[st.size()-2],st.back())>=dep(st.back(),x)){ State z=joinStates(st[st.size()-2],st.back(),isPhi); st.pop_back(); st.back()=move(z); } st.push_back(move(x)); }
  while(st.size()>=2){ State z=joinStates(st[st.size()-2],st.back(),isPhi); st.pop_back(); st.back()=move(z); }
  return move(st[0]); }
