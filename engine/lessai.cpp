// Static analyser: abstract interpretation of LLVM IR over a gated value graph (see DESIGN.md).
#include "mem.h"
#include <set>
#include <sys/resource.h>
#include <unistd.h>
#include <chrono>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/raw_ostream.h>
using llvm::BasicBlock; using llvm::Function; using llvm::Instruction; using llvm::Value; using llvm::Type; using llvm::dyn_cast; using llvm::isa; using llvm::cast; using llvm::Loop; using llvm::PHINode;
static const llvm::DataLayout*DL; static llvm::Module*Mod;
static bool trace=false;

// ------------------------------------------------------------------ obligations
struct Viol { string kind,msg,file,func,stack; int line; };
struct Tally { u64 total=0,proved=0; };
static map<string,Tally> tally; static vector<Viol> viols; static set<string> violKeys; static int mute=0;
static map<string,string> hashes; static map<string,u64> reached; static set<string> analysed; static map<string,u64> notes;
static vector<pair<Function*,Instruction*>> callStack; static Instruction*curI=nullptr;
static u64 steps=0; static map<string,u64> perKindFn;
static string locStr(Instruction*I,string*file=nullptr,int*line=nullptr){ if(!I) return "?"; auto d=I->getDebugLoc(); if(!d) return I->getFunction()->getName().str(); auto*sc=llvm::cast<llvm::DIScope>(d.getScope()); string f=sc->getFilename().str(); size_t p=f.rfind('/'); string dir; string base=p==string::npos?f:f.substr(p+1); if(file)*file=f; if(line)*line=d.getLine(); return base+":"+to_string(d.getLine()); }
static string stackStr(){ string s; for(auto&c:callStack){ if(c.second) s+=string(s.empty()?"":" > ")+c.second->getFunction()->getName().str()+"@"+locStr(c.second); } return s; }
static void oblig(const string&kind,bool ok,const function<string()>&msg){ if(mute) return; auto&t=tally[kind]; t.total++; if(ok){ t.proved++; return; }
  Viol v; v.kind=kind; v.msg=msg(); v.line=0; if(curI){ locStr(curI,&v.file,&v.line); v.func=curI->getFunction()->getName().str(); } v.stack=stackStr();
  string key=kind+"|"+v.file+":"+to_string(v.line)+"|"+v.func+"|"+(kind=="prove"?v.msg.substr(0,60):""); if(violKeys.count(key)&&viols.size()>0) return; violKeys.insert(key); if(viols.size()<400) viols.push_back(v); if(trace) fprintf(stderr,"VIOL %s %s:%d %s\n   %s\n",v.kind.c_str(),v.file.c_str(),v.line,v.msg.c_str(),v.stack.c_str()); }
struct OblSnap { map<string,Tally> t; vector<Viol> v; set<string> k; map<string,u64> r; map<string,string> h; };
static OblSnap oblSave(){ return {tally,viols,violKeys,reached,hashes}; } static void oblRestore(const OblSnap&o){ tally=o.t; viols=o.v; violKeys=o.k; reached=o.r; hashes=o.h; }
static bool ctMode=false; static u64 optBounds=1,optUninit=1;
static set<string> fixFns; static int maxIter=500000; static u64 assumeDepth=0;

static bool proveLit(Lit l,Fact*f,string*why,int bits=16);
// (A <-> B): each conjunct of one side follows from the other side
static bool proveImpl(Lit A,Lit B,Fact*f,string*why,int bits){ vector<Lit> m,am; if(!(A&1)&&BNs[A>>1].k==B_AND) setVec(BNs[A>>1].set,am); else am.push_back(A); set<Lit> as(am.begin(),am.end()); if(!(B&1)&&BNs[B>>1].k==B_AND) setVec(BNs[B>>1].set,m); else m.push_back(B); { vector<Lit> r; for(Lit l:m) if(!as.count(l)) r.push_back(l); m=r; } if(m.empty()) return true; Fact*g=factAssume(f,A,false); if(!g) return true; for(Lit l:m){ string w; if(litReduce(l,g)!=TRUE_&&!tableProve(l,g,&w,bits)){ if(why) *why="not implied: "+litStr(l,4)+" "+w; return false; } } return true; }
static bool proveEquiv(Lit A,Lit B,Fact*f,string*why,int bits=18){ A=litReduce(A,f); B=litReduce(B,f); if(A==B) return true; if(proveImpl(A,B,f,why,bits)&&proveImpl(B,A,f,why,bits)) return true; return false; }
static bool proveLit(Lit l,Fact*f,string*why,int bits){ Lit r=litReduce(l,f); if(r==TRUE_) return true; return tableProve(r,f,why,bits); }

// ------------------------------------------------------------------ sponges
static TNode* mkT(TNode*prev,Arr*a,W*off,W*len){ static HMap<TNode*> in; H h; h.add((u64)0x7A); h.add(prev?prev->h:(u128)0).add(a->h).add(off->h).add(len->h); auto&e=in[h.get()]; if(e) return e; return e=new TNode{prev,a,off,len,h.get(),prev?prev->depth+1:1}; }
static TNode* tAppend(TNode*t,const Piece&p){ Arr*a; W*off; W*len;
  if(p.arr){ a=p.arr; off=p.off; len=p.sn?p.sn:C64(p.n); } else { vector<W*> v; for(u64 i=0;i<p.n;i++) v.push_back(p.byte(i)); a=mkBytesArr(v); off=C64(0); len=C64(p.n); }
  if(isC(len)&&!len->c) return t;
  if(t&&t->arr==a&&a->k!=A_BYTES&&wAdd(t->off,t->len)==off) return mkT(t->prev,a,t->off,wAdd(t->len,len));
  if(t&&a->k==A_BYTES&&t->arr->k==A_BYTES){ vector<W*> v=t->arr->bytes; v.insert(v.end(),a->bytes.begin(),a->bytes.end()); return mkT(t->prev,mkBytesArr(v),C64(0),C64(v.size())); }
  return mkT(t,a,off,len); }
static TNode* tAppendBlob(TNode*t,const Blob&b,Fact*f){ for(auto&p:canonBlob(b,f)) t=tAppend(t,p); return t; }
Arr* joinSponge(Lit c,Arr*a,Arr*b){ W*z=C64(0); if(a->variant!=b->variant||a->phase!=b->phase) return mkIteArr(c,a,b,z);
  if(a->t==b->t){ if(a->q&&b->q) return mkSpongeArr(a->variant,a->phase,a->t,wIte(c,a->q,b->q)); return mkIteArr(c,a,b,z); }
  if(a->phase==0){ // merge equal-length tails
    TNode*x=a->t,*y=b->t; vector<TNode*> xs,ys; while(x!=y){ u32 dx=x?x->depth:0,dy=y?y->depth:0; if(dx>=dy){ xs.push_back(x); x=x->prev; if(dx==dy){ ys.push_back(y); y=y->prev; } } else { ys.push_back(y); y=y->prev; } }
    Blob bx,by; u64 nx=0,ny=0; bool ok=true; for(size_t i=xs.size();i-->0;){ if(!isC(xs[i]->len)){ok=false;break;} nx+=xs[i]->len->c; bx.push_back(runP(xs[i]->arr,xs[i]->off,xs[i]->len->c)); } for(size_t i=ys.size();i-->0;){ if(!isC(ys[i]->len)){ok=false;break;} ny+=ys[i]->len->c; by.push_back(runP(ys[i]->arr,ys[i]->off,ys[i]->len->c)); }
    if(ok&&nx==ny){ TNode*t=x; size_t i=0,j=0; u64 oi=0,oj=0; while(i<bx.size()&&j<by.size()){ if(oi==bx[i].n){i++;oi=0;continue;} if(oj==by[j].n){j++;oj=0;continue;} u64 m=min(bx[i].n-oi,by[j].n-oj); Piece p=subP(bx[i],oi,m),q=subP(by[j],oj,m);
        if(p.arr==q.arr&&p.off==q.off) t=tAppend(t,p); else if(p.arr->k==A_BYTES||q.arr->k==A_BYTES){ vector<W*> v; for(u64 k=0;k<m;k++) v.push_back(wIte(c,p.byte(k),q.byte(k))); for(auto&z2:canonBlob({cellsP(v)})) t=tAppend(t,z2); } else t=tAppend(t,runP(mkIteArr(c,p.arr,q.arr,wSub(q.off,p.off)),p.off,m)); oi+=m;oj+=m; }
      return mkSpongeArr(a->variant,0,t,nullptr); } }
  return mkIteArr(c,a,b,z); }
static string hex128(u128 h){ char b[40]; snprintf(b,40,"%016llx%016llx",(unsigned long long)(u64)(h>>64),(unsigned long long)(u64)h); return b; }
static map<string,u128> outNames; // OUT array name -> transcript
static map<Arr*,TNode*> outT;
static Arr* outArr(const string&variant,TNode*t){ Arr*a=mkBase("XOF<"+variant+">("+hex128(t?t->h:0).substr(0,12)+")"+hex128(t?t->h:0),1,0,255,0,false); outT[a]=t; return a; }
static u32 tAttr(TNode*t){ u32 a=0; while(t){ a|=t->arr->attr; t=t->prev; } return a; }

// ------------------------------------------------------------------ memory access with obligations
static string fmtOff(W*o){ return wStr(o,4); }
static string regName(int rid){ return rid>0?Regs[rid].name:(rid==0?"<null>":"<mixed>"); }
static bool checkUninitW(W*w,State&s,const char*what){ if(!(w->attr&A_UNINIT)) return true; W*r=wReduce(w,s.f); bool ok=!(r->attr&A_UNINIT); oblig("uninit",ok,[&]{return string(what)+" depends on uninitialised data: "+wStr(r,3);}); return ok; }
static bool boundsOk(State&s,int rid,W*off,W*len,bool wr){
  if(rid<=0){ oblig("bounds",false,[&]{return string(wr?"write":"read")+" through a pointer that is null, unknown or of mixed provenance: "+fmtOff(off);}); return false; }
  if(!findReg(s,rid)){ oblig("bounds",false,[&]{return "access to dead object "+regName(rid);}); return false; }
  W*size=Regs[rid].size; bool ok;
  if(isC(off)&&isC(len)&&isC(size)){ ok=off->c<=size->c&&len->c<=size->c-off->c; oblig("bounds",ok,[&]{return string(wr?"write":"read")+" of "+to_string(len->c)+" bytes at offset "+to_string((i64)off->c)+" of "+regName(rid)+" ("+to_string(size->c)+" bytes)";}); return ok; }
  auto le0=[&](LinF l)->bool{ Lit n=cNeg([&]{ LinF m=l; for(auto&t:m.t) t.second=-t.second; m.c=-m.c; return m; }(),s.f); // -l <0  <=> l>0
    if(n==FALSE_) return true; string w; return proveLit(NOT(n),s.f,&w,18); };
  LinF lo=toLin(off); for(auto&t:lo.t) t.second=-t.second; lo.c=-lo.c; LinF hi=toLin(wAdd(off,len)); { LinF z=toLin(size); hi.c-=z.c; for(auto&t:z.t) hi.t.push_back({t.first,-t.second}); sort(hi.t.begin(),hi.t.end(),[](auto&x,auto&y){return x.first->id<y.first->id;}); size_t j=0; for(size_t i=0;i<hi.t.size();){ W*x=hi.t[i].first; i64 q=0; while(i<hi.t.size()&&hi.t[i].first==x) q+=hi.t[i++].second; if(q) hi.t[j++]={x,q}; } hi.t.resize(j); }
  if(off->k==W_BITS||off->k==W_OP){ u64 a,b; if(urange(off,s.f,a,b)&&isC(len)&&isC(size)&&b<=size->c&&len->c<=size->c-b){ oblig("bounds",true,[]{return string();}); return true; } }
  ok=le0(hi)&&le0(lo);
  oblig("bounds",ok,[&]{ u64 a=0,b=0; bool k=urange(off,s.f,a,b); return string(wr?"write":"read")+" of "+wStr(len,2)+" bytes at offset "+fmtOff(off)+(k?" (range "+to_string(a)+".."+to_string(b)+")":" (range unbounded)")+" not provably inside "+regName(rid)+" ("+wStr(size,2)+" bytes)"; }); return ok; }
static void doWrite(State&s,W*ptr,const Blob&b,W*len,u32 esz);
static void fixRecord(State&s,int rid,W*off,const Blob&b,W*len,u32 esz);
static map<int,pair<u32,u64>> drawRegs; // objects whose elements must be min + raw random bits
static void checkDraw(State&s,int rid,const Blob&b){ auto it=drawRegs.find(rid); if(it==drawRegs.end()) return; u32 es=it->second.first; bool ok=true; string why; for(auto&p:b){ if(p.sn||p.n%es){ ok=false; why="odd store"; break; } for(u64 i=0;i<p.n&&ok;i+=es){ vector<W*> v; for(u32 k=0;k<es;k++) v.push_back(p.byte(i+k)); W*w=wSub(wConcat(v),mkConst(8*es,it->second.second)); const vector<Lit>&l=bitsOf(w); set<Lit> seen; for(Lit x:l){ if(x==FALSE_) continue; const BN&n=BNs[x>>1]; if((x&1)||n.k!=B_BITOF||n.w->k!=W_OP||n.w->op!=OP_SEL||!n.w->arr||n.w->arr->name.compare(0,11,"random bits")||!seen.insert(x).second){ ok=false; why=wStr(wConcat(v),4); break; } } if(seen.empty()){ ok=false; why="no random bits in "+wStr(wConcat(v),4); } } }
  oblig("prove",ok,[&]{return string("sampled elements must be unmodified accepted random bits: ")+why;}); }
static Blob doRead(State&s,W*ptr,W*len){
  if(ptr->k==W_OP&&ptr->op==OP_ITE){ Lit c=litReduce((Lit)ptr->c,s.f); if(c==TRUE_) return doRead(s,ptr->a[0],len); if(c==FALSE_) return doRead(s,ptr->a[1],len); State t=s; t.f=factAssume(s.f,c,true); Blob a,b; bool ha=t.f,hb; if(ha) a=doRead(t,ptr->a[0],len); t.f=factAssume(s.f,NOT(c),true); hb=t.f; if(hb) b=doRead(t,ptr->a[1],len); if(!ha) return b; if(!hb) return a;
    vector<W*> x=blobBytes(a),y=blobBytes(b); for(size_t i=0;i<x.size();i++) x[i]=wIte(c,x[i],y[i]); return {cellsP(x)}; }
  checkUninitW(ptr,s,"address"); if(ctMode){ bool ok=!(wReduce(ptr,s.f)->attr&A_SECRET); oblig("ct",ok,[&]{return string("memory address depends on the processed data");}); }
  PD d=decodePtr(ptr); if(isC(len)&&len->c==0) return {}; W*raw=d.off; if(d.rid>0&&!isC(d.off)&&!counterLike(d.off)) d.off=wReduce(d.off,s.f);
  bool ok=boundsOk(s,d.rid,d.off,len,false); if(d.rid<=0||!findReg(s,d.rid)||(!ok&&isC(d.off))) { return {runS(mkBase("unknown",1,0,255,0,true),C64(0),len)}; }
  return readMem(s,d.rid,raw,len); }
static void doWrite(State&s,W*ptr,const Blob&b,W*len,u32 esz){
  if(ptr->k==W_OP&&ptr->op==OP_ITE){ Lit c=litReduce((Lit)ptr->c,s.f); if(c==TRUE_) return doWrite(s,ptr->a[0],b,len,esz); if(c==FALSE_) return doWrite(s,ptr->a[1],b,len,esz); 
    State t=s,u=s; t.f=factAssume(s.f,c,true); u.f=factAssume(s.f,NOT(c),true); if(t.f) doWrite(t,ptr->a[0],b,len,esz); if(u.f) doWrite(u,ptr->a[1],b,len,esz); Fact*f0=s.f; if(!t.f) s=u; else if(!u.f) s=t; else { s=joinStates(t,u,[](int){return true;}); s.f=f0; } return; }
  checkUninitW(ptr,s,"address"); if(ctMode){ bool ok=!(wReduce(ptr,s.f)->attr&A_SECRET); oblig("ct",ok,[&]{return string("memory address depends on the processed data");}); }
  PD d=decodePtr(ptr); if(isC(len)&&len->c==0) return; W*raw=d.off; if(d.rid>0&&!isC(d.off)&&!counterLike(d.off)) d.off=wReduce(d.off,s.f);
  bool ok=boundsOk(s,d.rid,d.off,len,true); if(d.rid<=0||!findReg(s,d.rid)) return;
  oblig("readonly",!Regs[d.rid].readonly,[&]{return "write to read-only object "+regName(d.rid);});
  RegInfo&ri=Regs[d.rid]; if(esz){ if(!ri.esz) ri.esz=esz; else if(ri.esz!=esz) ri.eszBad=true; }
  if(!ok&&isC(d.off)) return;
  if(!drawRegs.empty()) checkDraw(s,d.rid,b); fixRecord(s,d.rid,raw,b,len,esz); writeMem(s,d.rid,raw,b,len,esz?esz:1); }

// ------------------------------------------------------------------ types
static u64 tyBytes(Type*t){ return DL->getTypeStoreSize(t).getFixedValue(); }
static int tyBits(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); return (int)DL->getTypeSizeInBits(t).getFixedValue(); }
static Val mkV(W*w){ Val v; v.w=w; return v; }
static Val mkVec(vector<Val> v){ Val r; r.v=make_shared<vector<Val>>(move(v)); return r; }
static void valBytes(const Val&v,Type*t,vector<W*>&out){
  if(t->isVectorTy()||t->isArrayTy()){ Type*e= t->isArrayTy()? t->getArrayElementType(): cast<llvm::FixedVectorType>(t)->getElementType(); int eb=tyBits(e); if(t->isVectorTy()&&eb<8){ vector<Lit> l; for(auto&x:*v.v) for(Lit q:bitsOf(x.w)) l.push_back(q); while(l.size()%8) l.push_back(FALSE_); for(size_t i=0;i<l.size();i+=8) out.push_back(mkBits(8,vector<Lit>(l.begin()+i,l.begin()+i+8))); return; } for(auto&x:*v.v) valBytes(x,e,out); return; }
  if(t->isStructTy()){ auto*st=cast<llvm::StructType>(t); auto*sl=DL->getStructLayout(st); size_t base=out.size(); for(unsigned i=0;i<st->getNumElements();i++){ while(out.size()-base<sl->getElementOffset(i)) out.push_back(mkHavoc(8,"pad",0,255,A_UNINIT)); valBytes((*v.v)[i],st->getElementType(i),out); } while(out.size()-base<tyBytes(t)) out.push_back(mkHavoc(8,"pad",0,255,A_UNINIT)); return; }
  W*w=v.w; int n=(tyBits(t)+7)/8; if(w->w!=8*n) w=wZext(w,8*n,nullptr); if(n==1){ out.push_back(w); return; } for(int i=0;i<n;i++) out.push_back(wByte(w,i)); }
static Val bytesVal(const vector<W*>&b,size_t&pos,Type*t){
  if(t->isVectorTy()||t->isArrayTy()){ Type*e; u64 n; if(t->isArrayTy()){ e=t->getArrayElementType(); n=t->getArrayNumElements(); } else { e=cast<llvm::FixedVectorType>(t)->getElementType(); n=cast<llvm::FixedVectorType>(t)->getNumElements(); }
    int eb=tyBits(e); vector<Val> v; if(t->isVectorTy()&&eb<8){ for(u64 i=0;i<n;i++){ u64 bit=i*eb; vector<Lit> l; for(int k=0;k<eb;k++) l.push_back(bitsOf(b[pos+(bit+k)/8])[(bit+k)%8]); v.push_back(mkV(mkBits(eb,l))); } pos+=(n*eb+7)/8; return mkVec(move(v)); }
    for(u64 i=0;i<n;i++) v.push_back(bytesVal(b,pos,e)); return mkVec(move(v)); }
  if(t->isStructTy()){ auto*st=cast<llvm::StructType>(t); auto*sl=DL->getStructLayout(st); size_t base=pos; vector<Val> v; for(unsigned i=0;i<st->getNumElements();i++){ pos=base+sl->getElementOffset(i); v.push_back(bytesVal(b,pos,st->getElementType(i))); } pos=base+tyBytes(t); return mkVec(move(v)); }
  int bits=tyBits(t); int n=(bits+7)/8; vector<W*> x(b.begin()+pos,b.begin()+pos+n); pos+=n; W*w=wConcat(x); if(bits!=8*n) w=wTrunc(w,bits); return mkV(w); }

// ------------------------------------------------------------------ function info
struct FnInfo { Function*F; map<const Value*,int> idx; int n=0; llvm::DominatorTree*DT; llvm::LoopInfo*LI; vector<BasicBlock*> rpo; map<BasicBlock*,int> rpoIdx; BasicBlock*ret=nullptr; set<BasicBlock*> tail,thread; set<int> keep; map<BasicBlock*,set<int>> phis; };
static map<Function*,FnInfo*> fnInfo;
static FnInfo* getFn(Function*F){ auto&e=fnInfo[F]; if(e) return e; FnInfo*i=new FnInfo(); i->F=F; e=i; for(auto&a:F->args()) i->idx[&a]=i->n++; for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) i->idx[&I]=i->n++;
  i->DT=new llvm::DominatorTree(*F); i->LI=new llvm::LoopInfo(*i->DT); llvm::ReversePostOrderTraversal<Function*> R(F); for(auto*B:R){ i->rpoIdx[B]=i->rpo.size(); i->rpo.push_back(B); }
  for(auto*B:i->rpo){ for(auto&p:B->phis()) i->phis[B].insert(i->idx[&p]); if(isa<llvm::ReturnInst>(B->getTerminator())) i->ret=B; }
  auto isEnd=[](Instruction&I){ auto*c=dyn_cast<llvm::IntrinsicInst>(&I); return c&&c->getIntrinsicID()==llvm::Intrinsic::lifetime_end; };
  // tail: only control flow and scope ends until the return (locals are dead there); thread: a cleanup dispatch block, executed per incoming edge when its destination is known
  for(bool ch=true;ch;){ ch=false; for(auto it=i->rpo.rbegin();it!=i->rpo.rend();++it){ BasicBlock*B=*it; if(i->tail.count(B)||i->LI->getLoopFor(B)) continue; bool ok=true; for(auto&I:*B) if(!isa<PHINode>(I)&&!I.isTerminator()&&!isa<llvm::DbgInfoIntrinsic>(I)&&!isEnd(I)&&(I.mayReadOrWriteMemory()||isa<llvm::CallBase>(I)||isa<llvm::AllocaInst>(I))) ok=false; if(isa<llvm::UnreachableInst>(B->getTerminator())) ok=false; for(BasicBlock*t:llvm::successors(B)) if(!i->tail.count(t)) ok=false; if(ok){ i->tail.insert(B); ch=true; } } }
  for(auto it=i->rpo.rbegin();it!=i->rpo.rend();++it){ BasicBlock*B=*it; auto*T=B->getTerminator(); if(B->phis().empty()||i->LI->isLoopHeader(B)) continue; bool ok=true; for(auto&I:*B) if(!isa<PHINode>(I)&&!I.isTerminator()&&!isa<llvm::DbgInfoIntrinsic>(I)&&!isEnd(I)) ok=false; if(!ok) continue;
    if(auto*br=dyn_cast<llvm::BranchInst>(T); br&&br->isUnconditional()){ bool useful=false; if(i->thread.count(br->getSuccessor(0))){ for(auto&p:B->phis()) for(auto*u:p.users()) if(auto*q=dyn_cast<PHINode>(u)) if(q->getParent()==br->getSuccessor(0)) useful=true; } if(useful) i->thread.insert(B); continue; }
    Value*c=isa<llvm::SwitchInst>(T)?cast<llvm::SwitchInst>(T)->getCondition():isa<llvm::BranchInst>(T)?cast<llvm::BranchInst>(T)->getCondition():nullptr; if(!c||!isa<PHINode>(c)||cast<PHINode>(c)->getParent()!=B) continue; bool cst=false; for(auto&v:cast<PHINode>(c)->incoming_values()) if(isa<llvm::ConstantInt>(v)||isa<PHINode>(v)) cst=true; if(cst) i->thread.insert(B); }
  for(auto*B:i->thread) for(auto&p:B->phis()) i->keep.insert(i->idx[&p]);
  return e; }
static map<const llvm::GlobalValue*,int> gvReg; static State*rootState=nullptr; static map<int,RP> gvInit; 
static Val constVal(const llvm::Constant*C);
static W* gvPtr(const llvm::GlobalValue*G){ auto it=gvReg.find(G); if(it!=gvReg.end()) return Regs[it->second].base; 
  if(isa<Function>(G)){ int r=newRegion("fn:"+G->getName().str(),C64(1)); Regs[r].isFn=true; Regs[r].fn=(void*)G; Regs[r].readonly=true; gvReg[G]=r; return Regs[r].base; }
  unsupported("global "+G->getName().str()+" not registered"); }
static Val undefVal(Type*t){ if(t->isVectorTy()||t->isArrayTy()||t->isStructTy()){ vector<Val> v; u64 n=t->isArrayTy()?t->getArrayNumElements(): t->isStructTy()? t->getStructNumElements(): cast<llvm::FixedVectorType>(t)->getNumElements(); for(u64 i=0;i<n;i++) v.push_back(undefVal(t->isArrayTy()?t->getArrayElementType(): t->isStructTy()?t->getStructElementType(i): cast<llvm::FixedVectorType>(t)->getElementType())); return mkVec(move(v)); } 
  return mkV(mkHavoc(tyBits(t),"undef",0,tyBits(t)>=64?(i128)~0ULL:(i128)maskw(tyBits(t)),A_UNINIT)); }
static Val zeroVal(Type*t){ if(t->isVectorTy()||t->isArrayTy()||t->isStructTy()){ vector<Val> v; u64 n=t->isArrayTy()?t->getArrayNumElements(): t->isStructTy()? t->getStructNumElements(): cast<llvm::FixedVectorType>(t)->getNumElements(); for(u64 i=0;i<n;i++) v.push_back(zeroVal(t->isArrayTy()?t->getArrayElementType(): t->isStructTy()?t->getStructElementType(i): cast<llvm::FixedVectorType>(t)->getElementType())); return mkVec(move(v)); } return mkV(mkConst(tyBits(t),0)); }
static Val constVal(const llvm::Constant*C){
  if(auto*ci=dyn_cast<llvm::ConstantInt>(C)){ if(ci->getBitWidth()>64) unsupported("wide integer constant"); return mkV(mkConst(ci->getBitWidth(),ci->getZExtValue())); }
  if(isa<llvm::ConstantPointerNull>(C)) return mkV(C64(0));
  if(isa<llvm::UndefValue>(C)) return undefVal(C->getType());
  if(isa<llvm::ConstantAggregateZero>(C)) return zeroVal(C->getType());
  if(auto*cd=dyn_cast<llvm::ConstantDataSequential>(C)){ vector<Val> v; for(unsigned i=0;i<cd->getNumElements();i++) v.push_back(constVal(cd->getElementAsConstant(i))); return mkVec(move(v)); }
  if(auto*ca=dyn_cast<llvm::ConstantAggregate>(C)){ vector<Val> v; for(auto&o:ca->operands()) v.push_back(constVal(cast<llvm::Constant>(o))); return mkVec(move(v)); }
  if(auto*g=dyn_cast<llvm::GlobalValue>(C)) return mkV(gvPtr(g));
  if(auto*ce=dyn_cast<llvm::ConstantExpr>(C)){ switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { llvm::APInt off(64,0); if(!cast<llvm::GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) unsupported("constant gep"); return mkV(wAdd(constVal(ce->getOperand(0)).w,C64(off.getSExtValue()))); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v=constVal(ce->getOperand(0)); return v; }
      case Instruction::Sub: return mkV(wSub(constVal(ce->getOperand(0)).w,constVal(ce->getOperand(1)).w));
      case Instruction::Add: return mkV(wAdd(constVal(ce->getOperand(0)).w,constVal(ce->getOperand(1)).w)); } }
  string s; llvm::raw_string_ostream os(s); C->print(os); unsupported("constant "+s); }

// ------------------------------------------------------------------ interpreter
struct Exit { BasicBlock*from,*to; State s; };
struct Region { FnInfo*fi; Loop*L; bool hardStay=false,softStay=false,undecExit=false; vector<State> backs; vector<Exit> exits; };
static Val eval(State&s,FnInfo*fi,const Value*v){ if(auto*C=dyn_cast<llvm::Constant>(v)) return constVal(C); auto it=fi->idx.find(v); if(it==fi->idx.end()) unsupported("operand"); Val&r=s.regs[it->second]; if(!r.w&&!r.v) unsupported("use of a dropped value in "+fi->F->getName().str()); return r; }
static W* evalW(State&s,FnInfo*fi,const Value*v){ return eval(s,fi,v).w; }
static void execFunction(Function*F,const vector<Val>&args,State&s,Val*ret);
static void runRegion(Region&R,map<BasicBlock*,vector<State>>&pend);
static void runLoop(FnInfo*fi,Loop*L,State&&s,vector<Exit>&exits,bool&soft);
static bool runIntrinsic(State&s,FnInfo*fi,llvm::CallBase*CB,Function*F,Val*ret);
static bool execInstr(State&s,FnInfo*fi,Instruction&I);

static void setReg(State&s,FnInfo*fi,const Value*v,Val x){ s.regs[fi->idx[v]]=move(x); }
static void execBlock(Region&R,map<BasicBlock*,vector<State>>&pend,BasicBlock*B,State&&s);
static bool threadEdge(Region&R,map<BasicBlock*,vector<State>>&pend,BasicBlock*to,State&s){ if(!R.fi->thread.count(to)||R.fi->LI->getLoopFor(to)!=R.L) return false; Instruction*T=to->getTerminator(); if(auto*br=dyn_cast<llvm::BranchInst>(T); !(br&&br->isUnconditional())){ W*c=evalW(s,R.fi,isa<llvm::SwitchInst>(T)?cast<llvm::SwitchInst>(T)->getCondition():cast<llvm::BranchInst>(T)->getCondition()); if(!c||!isC(c)) return false; } execBlock(R,pend,to,move(s)); return true; }
static void pushEdge(Region&R,map<BasicBlock*,vector<State>>&pend,BasicBlock*from,BasicBlock*to,State&&s){
  // phi assignments
  vector<pair<int,Val>> as; for(auto&p:to->phis()) { const Value*in=p.getIncomingValueForBlock(from); Val v; if(isa<llvm::UndefValue>(in)) v=undefVal(p.getType()); else v=eval(s,R.fi,in); as.push_back({R.fi->idx[&p],v}); }
  for(auto&a:as) s.regs[a.first]=a.second;
  if(R.fi->tail.count(to)){ for(int a:s.allocas){ for(size_t i=0;i<s.mem.size();i++) if(s.mem[i].first==a){ s.mem.erase(s.mem.begin()+i); break; } } s.allocas.clear(); }
  if(R.L){ if(to==R.L->getHeader()){ R.backs.push_back(move(s)); return; } if(!R.L->contains(to)){ R.exits.push_back({from,to,move(s)}); return; } }
  if(threadEdge(R,pend,to,s)) return;
  pend[to].push_back(move(s)); }
static void routeExit(Region&R,map<BasicBlock*,vector<State>>&pend,Exit&&e){ // phis already assigned
  if(R.L){ if(e.to==R.L->getHeader()){ R.backs.push_back(move(e.s)); return; } if(!R.L->contains(e.to)){ R.exits.push_back(move(e)); return; } }
  if(threadEdge(R,pend,e.to,e.s)) return;
  pend[e.to].push_back(move(e.s)); }
static bool edgeExits(Loop*L,BasicBlock*B,BasicBlock*X,int depth=0){ if(!L->contains(X)) return true; if(depth>4) return false; Instruction*T=nullptr; for(auto&I:*X){ if(isa<PHINode>(I)||isa<llvm::DbgInfoIntrinsic>(I)) continue; T=&I; break; }
  auto*br=T?dyn_cast<llvm::BranchInst>(T):nullptr; if(!br) return false; if(br->isUnconditional()) return X!=L->getLoopLatch()&&edgeExits(L,X,br->getSuccessor(0),depth+1);
  auto*ph=dyn_cast<PHINode>(br->getCondition()); if(!ph||ph->getParent()!=X) return false; auto*c=dyn_cast<llvm::ConstantInt>(ph->getIncomingValueForBlock(B)); return c&&edgeExits(L,X,br->getSuccessor(c->isZero()?1:0),depth+1); }
static bool hardCond(State&s,FnInfo*fi,const Value*c,int depth=0){ // decided from constants only
  if(isa<llvm::Constant>(c)) return true; if(auto*ci=dyn_cast<llvm::ICmpInst>(c)){ W*a=evalW(s,fi,ci->getOperand(0)),*b=evalW(s,fi,ci->getOperand(1)); if(!a||!b) return false; W*d=wSub(a,b); return (isC(a)&&isC(b))||isC(d); }
  auto have=[&](const Value*v){ if(isa<llvm::Constant>(v)) return true; auto it=fi->idx.find(v); return it!=fi->idx.end()&&(s.regs[it->second].w||s.regs[it->second].v); };
  if(auto*ph=dyn_cast<PHINode>(c)){ if(depth>=4||!isC(evalW(s,fi,ph))) return false; for(auto&in:ph->incoming_values()){ const Value*v=in.get(); if(isa<llvm::Constant>(v)) continue; auto*i2=dyn_cast<Instruction>(v); if(!i2||!have(v)) { if(!i2) return false; continue; } bool ops=true; for(auto&o:i2->operands()) if(!have(o.get())) ops=false; if(!ops) continue; if(isa<PHINode>(i2)||!hardCond(s,fi,v,depth+1)) return false; } return true; }
  if(auto*se=dyn_cast<llvm::SelectInst>(c)){ return depth<4&&hardCond(s,fi,se->getCondition(),depth+1)&&hardCond(s,fi,se->getTrueValue(),depth+1)&&hardCond(s,fi,se->getFalseValue(),depth+1); }
  if(auto*in=dyn_cast<Instruction>(c)){ if(depth<4&&(in->getOpcode()==Instruction::Xor||in->getOpcode()==Instruction::And||in->getOpcode()==Instruction::Or)) return hardCond(s,fi,in->getOperand(0),depth+1)&&hardCond(s,fi,in->getOperand(1),depth+1); if(isa<llvm::CastInst>(in)&&depth<4) return hardCond(s,fi,in->getOperand(0),depth+1); }
  return false; }
static void execBlock(Region&R,map<BasicBlock*,vector<State>>&pend,BasicBlock*B,State&&s){
  FnInfo*fi=R.fi;
  for(auto&I:*B){ if(isa<PHINode>(I)||isa<llvm::DbgInfoIntrinsic>(I)) continue; curI=&I; steps++;
    if(I.isTerminator()) break; execInstr(s,fi,I); if(s.dead) return; }
  Instruction*T=B->getTerminator(); curI=T;
  bool exiting=R.L&&R.L->isLoopExiting(B)&&fi->LI->getLoopFor(B)==R.L;
  if(isa<llvm::ReturnInst>(T)){ R.exits.push_back({B,nullptr,move(s)}); return; }
  if(isa<llvm::UnreachableInst>(T)) return;
  if(auto*br=dyn_cast<llvm::BranchInst>(T)){
    if(br->isUnconditional()){ pushEdge(R,pend,B,br->getSuccessor(0),move(s)); return; }
    W*cw=evalW(s,fi,br->getCondition()); Lit c=bitsOf(cw)[0]; Lit r=litReduce(c,s.f);
    if(litAttr(r)&A_UNINIT) oblig("uninit",false,[&]{return "branch depends on uninitialised data: "+litStr(r,3);}); else oblig("uninit",true,[]{return string();});
    if(ctMode){ bool ok=!(litAttr(r)&A_SECRET); oblig("ct",ok,[&]{return "branch depends on the processed data: "+litStr(r,3);}); }
    Fact*f1=nullptr,*f0=nullptr; if(r==TRUE_) f1=s.f; else if(r==FALSE_) f0=s.f; else { f1=factAssume(s.f,r,true); f0=factAssume(s.f,NOT(r),true); if(r>1&&!f1&&f0) f0=s.f; if(f1&&!f0) f1=s.f; }
    bool d1=r==TRUE_||(f1&&!f0),d0=r==FALSE_||(f0&&!f1);
    BasicBlock*t=br->getSuccessor(0),*e=br->getSuccessor(1);
    if(t==e){ pushEdge(R,pend,B,t,move(s)); return; }
    if(exiting){ bool to=!R.L->contains(t),eo=!R.L->contains(e); if(d1||d0){ bool stays= d1?!to:!eo; if(stays){ if(hardCond(s,fi,br->getCondition())) R.hardStay=true; else R.softStay=true; } } else if(to||eo) R.undecExit=true; }
    if(!exiting&&R.L&&(d1||d0)&&edgeExits(R.L,B,d1?e:t)&&hardCond(s,fi,br->getCondition())) R.hardStay=true; // short-circuit loop conditions
    if(d1){ s.f=f1; pushEdge(R,pend,B,t,move(s)); return; } if(d0){ s.f=f0; pushEdge(R,pend,B,e,move(s)); return; }
    if(!f1&&!f0) return;
    State s2=s; s.f=f1; s2.f=f0; pushEdge(R,pend,B,t,move(s)); pushEdge(R,pend,B,e,move(s2)); return; }
  if(auto*sw=dyn_cast<llvm::SwitchInst>(T)){ W*v=evalW(s,fi,sw->getCondition()); checkUninitW(v,s,"switch"); if(ctMode){ bool ok=!(wReduce(v,s.f)->attr&A_SECRET); oblig("ct",ok,[&]{return string("branch depends on the processed data");}); }
    Fact*rest=s.f; bool alive=true; map<BasicBlock*,vector<Lit>> cs; for(auto&c:sw->cases()) cs[c.getCaseSuccessor()].push_back(cEq(v,mkConst(v->w,c.getCaseValue()->getZExtValue()),s.f));
    Lit none=TRUE_; for(auto&p:cs) for(Lit l:p.second) none=mkAnd(none,NOT(l));
    for(auto&p:cs){ Lit any=FALSE_; for(Lit l:p.second) any=mkOr(any,l); if(p.first==sw->getDefaultDest()) any=mkOr(any,none); any=litReduce(any,s.f); if(any==FALSE_) continue; Fact*f=factAssume(s.f,any,true); if(!f) continue; State s2=s; s2.f=f; pushEdge(R,pend,B,p.first,move(s2)); }
    if(!cs.count(sw->getDefaultDest())){ Lit n=litReduce(none,s.f); if(n!=FALSE_){ Fact*f=factAssume(s.f,n,true); if(f){ State s2=s; s2.f=f; pushEdge(R,pend,B,sw->getDefaultDest(),move(s2)); } } } (void)rest;(void)alive; if(exiting) R.undecExit=true; return; }
  unsupported(string("terminator ")+T->getOpcodeName()); }
static void runRegion(Region&R,map<BasicBlock*,vector<State>>&pend){
  FnInfo*fi=R.fi; // blocks in rpo order
  auto cmp=[&](BasicBlock*a,BasicBlock*b){ return fi->rpoIdx[a]<fi->rpoIdx[b]; };
  while(true){ BasicBlock*B=nullptr; for(auto&p:pend) if(!p.second.empty()&&(!B||cmp(p.first,B))) B=p.first; if(!B) break;
    vector<State> v=move(pend[B]); pend.erase(B);
    auto&ph=fi->phis[B]; Loop*BL=fi->LI->getLoopFor(B);
    State s= v.size()==1? move(v[0]): joinAll(v,[&](int i){ return ph.count(i)>0||fi->keep.count(i)>0; });
    if(BL&&BL!=R.L&&BL->getHeader()==B&&(!R.L||R.L->contains(BL))){ // enter the outermost inner loop headed here
      vector<Exit> ex; bool soft=false; runLoop(fi,BL,move(s),ex,soft); size_t n0=R.exits.size(); for(auto&e:ex) routeExit(R,pend,move(e)); if(R.L&&R.exits.size()>n0) R.undecExit=true; (void)soft; continue; }
    execBlock(R,pend,B,move(s)); } }
static void runFix(FnInfo*fi,Loop*L,State&&s,vector<Exit>&exits);
static string baseName(const string&n){ size_t p=n.rfind('.'); if(p!=string::npos&&p>0){ bool num=true; for(size_t i=p+1;i<n.size();i++) if(!isdigit(n[i])) num=false; if(num&&p+1<n.size()) return n.substr(0,p); } return n; }
static set<Loop*> bigLoop; static int unrollCap=64;
static bool repoFn(Function*F){ auto*sp=F->getSubprogram(); return sp&&sp->getFilename().find("harness/")==llvm::StringRef::npos&&sp->getFilename().find("engine/")==llvm::StringRef::npos; }
// a loop that neither reads memory nor calls anything (filling with constants or positions) is executed as it is
static bool fillLoop(Loop*L){ static map<Loop*,bool> memo; auto it=memo.find(L); if(it!=memo.end()) return it->second; bool ok=L->isInnermost(); for(BasicBlock*B:L->blocks()) for(auto&I:*B){ if(isa<llvm::LoadInst>(I)) ok=false; if(auto*c=dyn_cast<llvm::CallBase>(&I)) if(!isa<llvm::DbgInfoIntrinsic>(c)) ok=false; } return memo[L]=ok; }
static void runLoop(FnInfo*fi,Loop*L,State&&s0,vector<Exit>&exits,bool&soft){
  if(!fillLoop(L)) if(fixFns.count(baseName(fi->F->getName().str()))||(fixFns.count("*")&&repoFn(fi->F)&&(!L->isInnermost()||bigLoop.count(L)))){ runFix(fi,L,move(s0),exits); return; }
  State init=s0; OblSnap os=oblSave(); State cur=move(s0); size_t n0=exits.size(); int softRun=0;
  bool star=fixFns.count("*")&&repoFn(fi->F)&&!fillLoop(L);
  for(int it=0;;it++){ if(star&&it>unrollCap){ bigLoop.insert(L); exits.resize(n0); oblRestore(os); soft=true; runFix(fi,L,move(init),exits); return; } if(it>maxIter) unsupported("loop iteration limit in "+fi->F->getName().str());
    Region R{fi,L}; map<BasicBlock*,vector<State>> pend; 
    { // execute header block directly
      map<BasicBlock*,vector<State>> p2; execBlock(R,p2,L->getHeader(),move(cur)); runRegion(R,p2); }
    for(auto&e:R.exits) exits.push_back(move(e));
    if(R.backs.empty()) break;
    auto&ph=fi->phis[L->getHeader()];
    cur= R.backs.size()==1? move(R.backs[0]): joinAll(R.backs,[&](int i){return ph.count(i)>0||fi->keep.count(i)>0;});
    softRun= R.hardStay?0: softRun+1;
    if((R.undecExit&&!R.hardStay&&!R.softStay)||(softRun>=4&&(R.undecExit||R.softStay))||(softRun>=4096)){ // not a counted loop
      exits.resize(n0); oblRestore(os); soft=true; runFix(fi,L,move(init),exits); return; } } }

#include "fix.inc"

static Lit icmp(State&s,llvm::CmpInst::Predicate p,W*a,W*b,bool ptr){
  a=wReduce(a,s.f); b=wReduce(b,s.f);
  auto isBase=[&](W*x){ if(x->w!=64||isC(x)) return 0; PD d=decodePtr(x); return d.rid>0?d.rid:0; };
  int ra=isBase(a),rb=isBase(b);
  if(ra||rb){ if(ra==rb){ a=decodePtr(a).off; b=decodePtr(b).off; /* signed offsets */ switch(p){ case llvm::CmpInst::ICMP_EQ: return cEq(a,b,s.f); case llvm::CmpInst::ICMP_NE: return NOT(cEq(a,b,s.f)); 
        default: { Lit lt=cSlt(a,b,s.f),gt=cSlt(b,a,s.f); switch(p){ case llvm::CmpInst::ICMP_ULT: case llvm::CmpInst::ICMP_SLT: return lt; case llvm::CmpInst::ICMP_UGT: case llvm::CmpInst::ICMP_SGT: return gt; case llvm::CmpInst::ICMP_ULE: case llvm::CmpInst::ICMP_SLE: return NOT(gt); default: return NOT(lt); } } } }
    if(p==llvm::CmpInst::ICMP_EQ) return FALSE_; if(p==llvm::CmpInst::ICMP_NE) return TRUE_; 
    if(isC(b)&&b->c==0&&p==llvm::CmpInst::ICMP_UGT) return TRUE_; }
  (void)ptr;
  switch(p){ case llvm::CmpInst::ICMP_EQ: return cEq(a,b,s.f); case llvm::CmpInst::ICMP_NE: return NOT(cEq(a,b,s.f));
    case llvm::CmpInst::ICMP_ULT: return cUlt(a,b,s.f); case llvm::CmpInst::ICMP_UGT: return cUlt(b,a,s.f); case llvm::CmpInst::ICMP_ULE: return NOT(cUlt(b,a,s.f)); case llvm::CmpInst::ICMP_UGE: return NOT(cUlt(a,b,s.f));
    case llvm::CmpInst::ICMP_SLT: return cSlt(a,b,s.f); case llvm::CmpInst::ICMP_SGT: return cSlt(b,a,s.f); case llvm::CmpInst::ICMP_SLE: return NOT(cSlt(b,a,s.f)); case llvm::CmpInst::ICMP_SGE: return NOT(cSlt(a,b,s.f)); default: unsupported("icmp"); } }
static W* binop(State&s,unsigned op,W*a,W*b){ Fact*f=s.f;
  switch(op){ case Instruction::Add: return wAdd(a,b); case Instruction::Sub: return wSub(a,b); case Instruction::Mul: { W*r=wMul(a,b,f); return r; }
    case Instruction::And: return wAnd(a,b); case Instruction::Or: return wOr(a,b); case Instruction::Xor: return wXor(a,b);
    case Instruction::Shl: return wShl(a,wReduce(b,f),f); case Instruction::LShr: return wLshr(a,wReduce(b,f),f); case Instruction::AShr: return wAshr(a,wReduce(b,f),f);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      if(ctMode){ bool ok=!((wReduce(a,f)->attr|wReduce(b,f)->attr)&A_SECRET)||isC(b); oblig("ct",ok,[&]{return string("variable-time division on the processed data");}); }
      oblig("div0",[&]{ u64 l,h; urange(b,f,l,h); if(l>0) return true; string w; return proveLit(NOT(cEq(b,mkConst(b->w,0),f)),f,&w); }(),[&]{return string("divisor may be zero");});
      return wDivRem(op==Instruction::UDiv?OP_UDIV:op==Instruction::SDiv?OP_SDIV:op==Instruction::URem?OP_UREM:OP_SREM,wReduce(a,f),wReduce(b,f),f);
    default: unsupported("binop"); } }
static W* castOp(State&s,unsigned op,W*a,Type*dt){ int w=tyBits(dt); switch(op){ case Instruction::ZExt: return wZext(a,w,s.f); case Instruction::SExt: return wSext(a,w,s.f); case Instruction::Trunc: return wTrunc(a,w); case Instruction::PtrToInt: case Instruction::IntToPtr: if(a->w==w) return a; return a->w>w?wTrunc(a,w):wZext(a,w,s.f); default: unsupported("cast"); } }
static Val mapVal(const Val&a,const function<W*(W*)>&f){ if(a.w) return mkV(f(a.w)); vector<Val> v; for(auto&x:*a.v) v.push_back(mapVal(x,f)); return mkVec(move(v)); }
static Val mapVal2(const Val&a,const Val&b,const function<W*(W*,W*)>&f){ if(a.w) return mkV(f(a.w,b.w)); vector<Val> v; for(size_t i=0;i<a.v->size();i++) v.push_back(mapVal2((*a.v)[i],(*b.v)[i],f)); return mkVec(move(v)); }
static bool execCall(State&s,FnInfo*fi,llvm::CallBase*CB);
static bool execInstr(State&s,FnInfo*fi,Instruction&I){
  if(auto*bo=dyn_cast<llvm::BinaryOperator>(&I)){ Val a=eval(s,fi,bo->getOperand(0)),b=eval(s,fi,bo->getOperand(1)); unsigned op=bo->getOpcode(); setReg(s,fi,&I,mapVal2(a,b,[&](W*x,W*y){return binop(s,op,x,y);})); return true; }
  if(auto*ci=dyn_cast<llvm::ICmpInst>(&I)){ Val a=eval(s,fi,ci->getOperand(0)),b=eval(s,fi,ci->getOperand(1)); bool ptr=ci->getOperand(0)->getType()->isPointerTy(); setReg(s,fi,&I,mapVal2(a,b,[&](W*x,W*y){return litW(icmp(s,ci->getPredicate(),x,y,ptr));})); return true; }
  if(auto*c=dyn_cast<llvm::CastInst>(&I)){ Val a=eval(s,fi,c->getOperand(0)); if(c->getOpcode()==Instruction::BitCast){ if(c->getSrcTy()==c->getDestTy()||(a.w&&c->getDestTy()->isPointerTy())){ setReg(s,fi,&I,a); return true; } vector<W*> by; valBytes(a,c->getSrcTy(),by); size_t p=0; setReg(s,fi,&I,bytesVal(by,p,c->getDestTy())); return true; }
    Type*et=c->getDestTy()->getScalarType(); if(c->getSrcTy()->getScalarType()->isFloatingPointTy()||et->isFloatingPointTy()) unsupported("floating point"); setReg(s,fi,&I,mapVal(a,[&](W*x){return castOp(s,c->getOpcode(),x,et);})); return true; }
  if(auto*se=dyn_cast<llvm::SelectInst>(&I)){ Val c=eval(s,fi,se->getCondition()),a=eval(s,fi,se->getTrueValue()),b=eval(s,fi,se->getFalseValue());
    if(c.v){ vector<Val> v; for(size_t i=0;i<c.v->size();i++) v.push_back(mkV(wIte(bitsOf((*c.v)[i].w)[0],(*a.v)[i].w,(*b.v)[i].w))); setReg(s,fi,&I,mkVec(move(v))); }
    else { Lit l=litReduce(bitsOf(c.w)[0],s.f); setReg(s,fi,&I,mapVal2(a,b,[&](W*x,W*y){return wIte(l,x,y);})); } return true; }
  if(auto*al=dyn_cast<llvm::AllocaInst>(&I)){ W*n=evalW(s,fi,al->getArraySize()); n=wReduce(n,s.f); W*size=wMul(wZext(n,64,s.f),C64(DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue()),s.f); int r=newRegion(fi->F->getName().str()+"::"+(al->hasName()?al->getName().str():"tmp"),size); s.mem.push_back({r,initContent(r)}); s.allocas.push_back(r); setReg(s,fi,&I,mkV(Regs[r].base)); return true; }
  if(auto*ld=dyn_cast<llvm::LoadInst>(&I)){ W*p=evalW(s,fi,ld->getPointerOperand()); u64 n=tyBytes(ld->getType()); Blob b=doRead(s,p,C64(n)); Type*t=ld->getType();
    if(t->isIntegerTy()||t->isPointerTy()){ W*w=elemVal(b,n,s.f); int bits=tyBits(t); if(w->w!=bits) w=wTrunc(w,bits); if(w->attr&A_UNINIT||!isC(w)) w=wReduce(w,s.f); setReg(s,fi,&I,mkV(w)); }
    else { vector<W*> by=blobBytes(b); size_t q=0; setReg(s,fi,&I,bytesVal(by,q,t)); } return true; }
  if(auto*st=dyn_cast<llvm::StoreInst>(&I)){ W*p=evalW(s,fi,st->getPointerOperand()); Val v=eval(s,fi,st->getValueOperand()); Type*t=st->getValueOperand()->getType(); vector<W*> by; valBytes(v,t,by); u64 n=tyBytes(t); u32 esz=t->isVectorTy()?0:n; by.resize(n); doWrite(s,p,{cellsP(move(by))},C64(n),esz); return true; }
  if(auto*g=dyn_cast<llvm::GetElementPtrInst>(&I)){ W*p=evalW(s,fi,g->getPointerOperand()); for(auto it=llvm::gep_type_begin(g);it!=llvm::gep_type_end(g);++it){ Value*op=it.getOperand(); if(auto*stt=it.getStructTypeOrNull()){ p=wAdd(p,C64(DL->getStructLayout(stt)->getElementOffset(cast<llvm::ConstantInt>(op)->getZExtValue()))); } else { W*ix=evalW(s,fi,op); u64 sc=DL->getTypeAllocSize(it.getIndexedType()).getFixedValue(); if(ix->w<64){ if(ix->w==32||true) ix=wSext(wReduce(ix,s.f),64,s.f); } p=wAdd(p,wMulC(ix,sc)); } } setReg(s,fi,&I,mkV(p)); return true; }
  if(auto*ex=dyn_cast<llvm::ExtractElementInst>(&I)){ Val v=eval(s,fi,ex->getVectorOperand()); W*i=wReduce(evalW(s,fi,ex->getIndexOperand()),s.f); if(!isC(i)) unsupported("variable extractelement"); setReg(s,fi,&I,(*v.v)[i->c]); return true; }
  if(auto*in=dyn_cast<llvm::InsertElementInst>(&I)){ Val v=eval(s,fi,in->getOperand(0)); W*i=wReduce(evalW(s,fi,in->getOperand(2)),s.f); if(!isC(i)) unsupported("variable insertelement"); vector<Val> n=*v.v; n[i->c]=eval(s,fi,in->getOperand(1)); setReg(s,fi,&I,mkVec(move(n))); return true; }
  if(auto*sv=dyn_cast<llvm::ShuffleVectorInst>(&I)){ Val a=eval(s,fi,sv->getOperand(0)),b=eval(s,fi,sv->getOperand(1)); vector<Val> n; int na=a.v->size(); Type*et=cast<llvm::VectorType>(I.getType())->getElementType(); for(int m:sv->getShuffleMask()){ if(m<0) n.push_back(undefVal(et)); else n.push_back(m<na?(*a.v)[m]:(*b.v)[m-na]); } setReg(s,fi,&I,mkVec(move(n))); return true; }
  if(auto*ev=dyn_cast<llvm::ExtractValueInst>(&I)){ Val v=eval(s,fi,ev->getAggregateOperand()); for(unsigned i:ev->indices()){ Val t=(*v.v)[i]; v=t; } setReg(s,fi,&I,v); return true; }
  if(auto*iv=dyn_cast<llvm::InsertValueInst>(&I)){ Val v=eval(s,fi,iv->getAggregateOperand()); if(iv->getNumIndices()!=1) unsupported("nested insertvalue"); vector<Val> n=*v.v; n[iv->getIndices()[0]]=eval(s,fi,iv->getInsertedValueOperand()); setReg(s,fi,&I,mkVec(move(n))); return true; }
  if(auto*fr=dyn_cast<llvm::FreezeInst>(&I)){ setReg(s,fi,&I,eval(s,fi,fr->getOperand(0))); return true; }
  if(auto*cb=dyn_cast<llvm::CallBase>(&I)) return execCall(s,fi,cb);
  unsupported(string("instruction ")+I.getOpcodeName()); }

static map<string,Function*> stubs; static map<Function*,int> activeStub; static int depth=0; static set<Function*> recursive;
static void execFunction(Function*F,const vector<Val>&args,State&s,Val*ret){
  if(F->isDeclaration()) unsupported("call of external function "+F->getName().str());
  if(++depth>64) unsupported("call depth (recursion through "+F->getName().str()+")");
  if(!mute) analysed.insert(baseName(F->getName().str()));
  FnInfo*fi=getFn(F); vector<Val> saved=move(s.regs); vector<int> savedA=move(s.allocas); s.regs.assign(fi->n,Val()); s.allocas.clear(); int i=0; for(auto&a:F->args()) s.regs[fi->idx[&a]]=args[i++];
  Region R{fi,nullptr}; map<BasicBlock*,vector<State>> pend; pend[&F->getEntryBlock()].push_back(move(s)); Instruction*svI=curI;
  runRegion(R,pend); curI=svI; depth--;
  if(R.exits.empty()){ s=State(); s.dead=true; s.regs=move(saved); s.allocas=move(savedA); return; }
  // exits at return blocks: merge (normally one)
  vector<State> v; int rv=-1; vector<Val> rvals; for(auto&e:R.exits){ auto*ri=cast<llvm::ReturnInst>(e.from->getTerminator()); if(ri->getReturnValue()){ Val x=eval(e.s,fi,ri->getReturnValue()); e.s.regs.push_back(x); rv=e.s.regs.size()-1; } for(int a:e.s.allocas) for(size_t k=0;k<e.s.mem.size();k++) if(e.s.mem[k].first==a){ e.s.mem.erase(e.s.mem.begin()+k); break; } e.s.allocas.clear(); v.push_back(move(e.s)); }
  State o= v.size()==1? move(v[0]): joinAll(v,[&](int q){return q==rv;});
  if(ret&&rv>=0) *ret=o.regs[rv];
  o.regs=move(saved); o.allocas=move(savedA); s=move(o); }
static void memcpyOp(State&s,W*d,W*src,W*n){ n=wReduce(n,s.f); if(isC(n)&&n->c==0) return; Blob b=doRead(s,src,n); doWrite(s,d,b,n,0); }
#include "vec.inc"
static bool execCall(State&s,FnInfo*fi,llvm::CallBase*CB){
  Value*cv=CB->getCalledOperand(); Function*F=dyn_cast<Function>(cv->stripPointerCasts());
  if(CB->isInlineAsm()) unsupported("inline assembly");
  if(!F){ W*p=wReduce(evalW(s,fi,cv),s.f); PD d=decodePtr(p); if(d.rid>0&&Regs[d.rid].isFn) F=(Function*)Regs[d.rid].fn; else unsupported("indirect call"); }
  Val ret; Instruction*svI=curI; 
  if(runIntrinsic(s,fi,CB,F,&ret)){ curI=svI; if(s.dead) return true; if(!CB->getType()->isVoidTy()){ if(!ret.w&&!ret.v) unsupported("no result from "+F->getName().str()); setReg(s,fi,CB,ret); } return true; }
  vector<Val> args; for(auto&a:CB->args()) args.push_back(eval(s,fi,a.get()));
  string bn=baseName(F->getName().str()); auto it=stubs.find(bn); Function*T=F; bool viaStub=false; if(it!=stubs.end()&&!activeStub[it->second]&&!F->getName().starts_with("ai_")){ T=it->second; viaStub=true; }
  if(args.size()!=T->arg_size()) unsupported("argument count of "+bn);
  if(viaStub){ for(auto&x:args) if(x.w) { checkUninitW(x.w,s,"argument"); } int i=0; for(auto&a:T->args()){ if(tyBits(a.getType())!=tyBits(CB->getArgOperand(i)->getType())) unsupported("argument type of "+bn); i++; } }
  callStack.push_back({F,CB}); if(viaStub) activeStub[T]++;
  execFunction(T,args,s,&ret);
  if(viaStub) activeStub[T]--; callStack.pop_back(); curI=svI;
  if(s.dead) return true; if(!CB->getType()->isVoidTy()) setReg(s,fi,CB,ret); return true; }
#include "intrin.inc"

static void registerGlobals(State&s){ for(auto&G:Mod->globals()){ if(G.getName().starts_with("llvm.")) continue; Type*t=G.getValueType(); int r=newRegion("global:"+baseName(G.getName().str()),C64(DL->getTypeAllocSize(t).getFixedValue())); gvReg[&G]=r; Regs[r].gv=(void*)&G; }
  for(auto&G:Mod->globals()){ auto it=gvReg.find(&G); if(it==gvReg.end()) continue; int r=it->second; RP c=initContent(r); s.mem.push_back({r,c}); if(G.hasInitializer()&&Regs[r].size->c){ vector<W*> by; 
      if(isa<llvm::ConstantAggregateZero>(G.getInitializer())){ c->segs[0]=runP(mkConstB(0),C64(0),Regs[r].size->c); }
      else if(isa<llvm::UndefValue>(G.getInitializer())){}
      else { Val v=constVal(G.getInitializer()); valBytes(v,G.getValueType(),by); by.resize(min<size_t>(by.size(),Regs[r].size->c)); c->segs.clear(); u64 n=by.size(); c->segs[0]=cellsP(move(by)); if(n<Regs[r].size->c) c->segs[n]=runP(mkConstB(0),C64(0),Regs[r].size->c-n); } }
    if(G.isConstant()) Regs[r].readonly=true; } 
  sort(s.mem.begin(),s.mem.end(),[](auto&a,auto&b){return a.first<b.first;}); }
static string jesc(const string&s){ string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
int main(int argc,char**argv){
  if(argc<3){ fprintf(stderr,"usage: lessai in.bc out.json [entry]\n"); return 3; }
  { rlimit rl{1ul<<30,1ul<<30}; getrlimit(RLIMIT_STACK,&rl); (void)rl; }
  trace=getenv("AI_TRACE")!=nullptr; auto t0=chrono::steady_clock::now();
  llvm::LLVMContext ctx; llvm::SMDiagnostic err; auto M=llvm::parseIRFile(argv[1],err,ctx); if(!M){ fprintf(stderr,"cannot read %s\n",argv[1]); return 3; }
  Mod=M.get(); DL=&M->getDataLayout(); initTerms(); string status="ok",emsg; State s;
  try{ 
    for(auto&F:*M){ string n=F.getName().str(); if(n.rfind("ai_stub_",0)==0&&!F.isDeclaration()) stubs[n.substr(8)]=&F; if(n.rfind("ai_req_",0)==0&&!F.isDeclaration()){ string q=n.substr(7); Function*T=M->getFunction(q); if(!T||T->isDeclaration()) unsupported("anchor function "+q+" no longer exists"); } }
    registerGlobals(s); Function*E=M->getFunction(argc>3?argv[3]:"ai_main"); if(!E) unsupported("no entry"); execFunction(E,{},s,nullptr); }
  catch(Unsupported&u){ status="unsupported"; emsg=u.msg+" at "+(curI?locStr(curI):"?")+" ["+stackStr()+"]"; }
  double wall=chrono::duration<double>(chrono::steady_clock::now()-t0).count();
  FILE*o=fopen(argv[2],"w"); fprintf(o,"{\"status\":\"%s\",\"error\":\"%s\",\"wall\":%.2f,\"steps\":%llu,\"tables\":%llu,\"table_rows\":%llu,\n\"dead_end\":%s,\n\"obligations\":{",status.c_str(),jesc(emsg).c_str(),wall,(unsigned long long)steps,(unsigned long long)stTables,(unsigned long long)stTableRows,s.dead?"true":"false");
  bool first=true; for(auto&t:tally){ fprintf(o,"%s\"%s\":[%llu,%llu]",first?"":",",t.first.c_str(),(unsigned long long)t.second.total,(unsigned long long)t.second.proved); first=false; }
  fprintf(o,"},\n\"violations\":["); first=true; for(auto&v:viols){ fprintf(o,"%s{\"kind\":\"%s\",\"msg\":\"%s\",\"file\":\"%s\",\"line\":%d,\"func\":\"%s\",\"stack\":\"%s\"}",first?"":",\n",v.kind.c_str(),jesc(v.msg).c_str(),jesc(v.file).c_str(),v.line,jesc(v.func).c_str(),jesc(v.stack).c_str()); first=false; }
  fprintf(o,"],\n\"hashes\":{"); first=true; for(auto&h:hashes){ fprintf(o,"%s\"%s\":\"%s\"",first?"":",",jesc(h.first).c_str(),h.second.c_str()); first=false; }
  fprintf(o,"},\n\"reached\":{"); first=true; for(auto&h:reached){ fprintf(o,"%s\"%s\":%llu",first?"":",",jesc(h.first).c_str(),(unsigned long long)h.second); first=false; }
  fprintf(o,"},\n\"functions\":["); first=true; for(auto&h:analysed){ fprintf(o,"%s\"%s\"",first?"":",",h.c_str()); first=false; } fprintf(o,"]}\n"); fclose(o); fflush(nullptr); _exit(0); }
