// Interprocedural effect analysis over linked LLVM IR: call graph, globals, external calls, recursion, and an inclusion-based
// points-to / mod analysis with one context per call path (functions of a call-graph cycle share the context).
// usage: effects in.bc out.json entry[:p1,p2,..] ...   (p: parameters that must not be written)
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <functional>
#include <set>
#include <string>
#include <vector>
#include <cstdio>
#include <unistd.h>
using namespace std; using llvm::Function; using llvm::Value; using llvm::Instruction; using llvm::isa; using llvm::dyn_cast; using llvm::cast;
static string base(string n){ size_t i=n.size(); while(i&&isdigit((unsigned char)n[i-1])) i--; if(i&&i<n.size()&&n[i-1]=='.') n.resize(i-1); return n; }
static string esc(const string&s){ string r; for(char c:s){ if(c=='"'||c=='\\') r+='\\'; r+=c; } return r; }
struct Loc{ string file; int line; string fn; };
static Loc loc(Instruction*I){ Loc l; l.fn=base(I->getFunction()->getName().str()); l.line=0; if(auto d=I->getDebugLoc()){ l.line=d.getLine(); auto*s=llvm::cast<llvm::DIScope>(d.getScope()); l.file=s->getDirectory().str()+"/"+s->getFilename().str(); if(!s->getFilename().empty()&&s->getFilename()[0]=='/') l.file=s->getFilename().str(); if(auto*ia=d.getInlinedAt()){ (void)ia; } } return l; }
static string jl(const Loc&l){ return "{\"file\":\""+esc(l.file)+"\",\"line\":"+to_string(l.line)+",\"func\":\""+esc(l.fn)+"\"}"; }
struct Ctx{ Function*F; int id; map<Instruction*,vector<Ctx*>> callees; Ctx*parent; Instruction*site; };
static vector<Ctx*> ctxs; static set<string> externs_; 
static map<pair<Ctx*,Value*>,int> nodeId; static map<pair<Ctx*,Value*>,int> objId; static vector<string> objName; static vector<Value*> objVal; static vector<set<int>> pts, content; static vector<int> dummy;
static bool changed;
static int node(Ctx*c,Value*v){ if(isa<llvm::Constant>(v)) c=nullptr; auto k=make_pair(c,v); auto it=nodeId.find(k); if(it!=nodeId.end()) return it->second; int n=pts.size(); pts.push_back({}); nodeId[k]=n; return n; }
static int obj(Ctx*c,Value*v,const string&nm){ auto k=make_pair(c,v); auto it=objId.find(k); if(it!=objId.end()) return it->second; int o=objName.size(); objName.push_back(nm); objVal.push_back(v); content.push_back({}); objId[k]=o; return o; }
static void add(set<int>&d,const set<int>&s){ for(int x:s) if(d.insert(x).second) changed=true; }
static set<int> P(Ctx*c,Value*v){ v=v; if(auto*g=dyn_cast<llvm::GlobalVariable>(v)) return {obj(nullptr,g,"global:"+g->getName().str())}; if(auto*f=dyn_cast<Function>(v)) return {obj(nullptr,f,"function:"+f->getName().str())};
  if(auto*ce=dyn_cast<llvm::ConstantExpr>(v)){ set<int> r; for(auto&o:ce->operands()){ auto q=P(c,o.get()); r.insert(q.begin(),q.end()); } return r; } if(isa<llvm::Constant>(v)) return {}; return pts[node(c,v)]; }
static Ctx* mk(Function*F,Ctx*parent,Instruction*site){ for(Ctx*p=parent;p;p=p->parent) if(p->F==F) return p; Ctx*c=new Ctx{F,(int)ctxs.size(),{},parent,site}; ctxs.push_back(c); if(ctxs.size()>200000) { fprintf(stderr,"too many contexts\n"); _exit(4); } return c; }
static void globInit(llvm::Constant*C,int o){ if(auto*g=dyn_cast<llvm::GlobalValue>(C)){ auto q=P(nullptr,g); add(content[o],q); return; } for(auto&op:C->operands()) if(auto*k=dyn_cast<llvm::Constant>(op.get())) globInit(k,o); }
int main(int argc,char**argv){
  llvm::LLVMContext cx; llvm::SMDiagnostic er; auto M=llvm::parseIRFile(argv[1],er,cx); if(!M){ fprintf(stderr,"cannot read %s\n",argv[1]); return 3; }
  FILE*o=fopen(argv[2],"w"); fprintf(o,"{\"entries\":{");
  map<string,vector<Loc>> gwrite; map<string,bool> gconst; 
  bool firstE=true;
  set<Function*> allReach;
  auto analyse=[&](Function*E,const set<int>&ro,const string&name,bool out){
    ctxs.clear(); nodeId.clear(); objId.clear(); objName.clear(); objVal.clear(); pts.clear(); content.clear();
    Ctx*root=mk(E,nullptr,nullptr); vector<pair<string,Loc>> ext; vector<Loc> indir,asmv; set<pair<string,string>> edges; vector<pair<int,Loc>> writes; vector<Loc> unres; map<string,vector<Loc>> grefs; map<int,vector<Loc>> wr; set<Instruction*> seenW;
    { int i=0; for(auto&a:E->args()){ if(a.getType()->isPointerTy()) pts[node(root,&a)].insert(obj(root,&a,"param:"+to_string(i))); i++; } }
    for(auto&G:M->globals()) if(G.hasInitializer()){ int ob=obj(nullptr,&G,"global:"+G.getName().str()); globInit(G.getInitializer(),ob); }
    // expand contexts for direct calls
    set<pair<Instruction*,string>> es; 
    auto callsOf=[&](Ctx*c,llvm::CallBase*cb)->vector<Function*>{ Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*f=dyn_cast<Function>(cv)) return {f}; vector<Function*> r; for(int x:P(c,cv)) if(auto*f=dyn_cast<Function>(objVal[x])) r.push_back(f); return r; };
    int pass=0;
    do{ changed=false; if(++pass>200){ fprintf(stderr,"no fixpoint\n"); _exit(4); }
      for(size_t ci=0;ci<ctxs.size();ci++){ Ctx*c=ctxs[ci]; for(auto&I:llvm::instructions(c->F)){
        auto wrTo=[&](Value*p,Instruction*at){ for(int x:P(c,p)){ auto&v=wr[x]; bool have=false; Loc l=loc(at); for(auto&q:v) if(q.file==l.file&&q.line==l.line&&q.fn==l.fn) have=true; if(!have) v.push_back(l); } };
        if(auto*al=dyn_cast<llvm::AllocaInst>(&I)){ auto&s=pts[node(c,al)]; if(s.insert(obj(c,al,"local:"+c->F->getName().str()+"::"+al->getName().str())).second) changed=true; }
        else if(isa<llvm::GetElementPtrInst>(I)||isa<llvm::CastInst>(I)||isa<llvm::PHINode>(I)||isa<llvm::SelectInst>(I)||isa<llvm::BinaryOperator>(I)||isa<llvm::FreezeInst>(I)||isa<llvm::ExtractValueInst>(I)||isa<llvm::InsertValueInst>(I)||isa<llvm::ExtractElementInst>(I)||isa<llvm::InsertElementInst>(I)||isa<llvm::ShuffleVectorInst>(I)){ int n=node(c,&I); for(auto&op:I.operands()){ if(isa<llvm::BasicBlock>(op.get())) continue; auto s=P(c,op.get()); if(!s.empty()) add(pts[n],s); } }
        else if(auto*ld=dyn_cast<llvm::LoadInst>(&I)){ int n=node(c,ld); for(int x:P(c,ld->getPointerOperand())) if(!content[x].empty()){ set<int> s=content[x]; add(pts[n],s); } }
        else if(auto*st=dyn_cast<llvm::StoreInst>(&I)){ auto v=P(c,st->getValueOperand()); auto pp=P(c,st->getPointerOperand()); if(!v.empty()) for(int x:pp) add(content[x],v); wrTo(st->getPointerOperand(),st); }
        else if(isa<llvm::AtomicRMWInst>(I)||isa<llvm::AtomicCmpXchgInst>(I)){ wrTo(I.getOperand(0),&I); }
        else if(auto*cb=dyn_cast<llvm::CallBase>(&I)){
          if(cb->isInlineAsm()){ if(pass==1) asmv.push_back(loc(cb)); for(auto&a:cb->args()) if(a->getType()->isPointerTy()) wrTo(a.get(),cb); continue; }
          auto fs=callsOf(c,cb); if(fs.empty()){ continue; }
          for(Function*f:fs){ string n=f->getName().str(); 
            if(n.rfind("llvm.dbg",0)==0||n.rfind("llvm.lifetime",0)==0||n.rfind("llvm.assume",0)==0||n.rfind("llvm.experimental.noalias",0)==0) continue;
            bool cpy=n.rfind("llvm.memcpy",0)==0||n.rfind("llvm.memmove",0)==0||n=="memcpy"||n=="memmove"||n=="__memcpy_chk"||n=="__memmove_chk"; bool setm=n.rfind("llvm.memset",0)==0||n=="memset"||n=="__memset_chk"||n=="explicit_bzero";
            if(cpy){ set<int> s; for(int x:P(c,cb->getArgOperand(1))) s.insert(content[x].begin(),content[x].end()); if(!s.empty()) for(int x:P(c,cb->getArgOperand(0))) add(content[x],s); wrTo(cb->getArgOperand(0),cb); if(!cb->getType()->isVoidTy()) add(pts[node(c,cb)],P(c,cb->getArgOperand(0))); }
            else if(setm){ wrTo(cb->getArgOperand(0),cb); if(!cb->getType()->isVoidTy()) add(pts[node(c,cb)],P(c,cb->getArgOperand(0))); }
            else if(f->isDeclaration()){ if(f->isIntrinsic()){ if(!f->onlyReadsMemory()&&!f->doesNotAccessMemory()) for(auto&a:cb->args()) if(a->getType()->isPointerTy()) wrTo(a.get(),cb); }
              else if(n=="memcmp"||n=="bcmp"||n=="strlen"){}
              else for(auto&a:cb->args()) if(a->getType()->isPointerTy()) wrTo(a.get(),cb); }
            else { Ctx*t=nullptr; for(Ctx*x:c->callees[cb]) if(x->F==f) t=x; if(!t){ t=mk(f,c,cb); c->callees[cb].push_back(t); changed=true; }
              unsigned i=0; for(auto&a:f->args()){ if(i<cb->arg_size()){ auto s=P(c,cb->getArgOperand(i)); if(!s.empty()) add(pts[node(t,&a)],s); } i++; }
              for(auto&B:*f) if(auto*r=dyn_cast<llvm::ReturnInst>(B.getTerminator())) if(r->getReturnValue()){ auto s=P(t,r->getReturnValue()); if(!s.empty()) add(pts[node(c,cb)],s); } } } } } }
    }while(changed);
    // reports
    map<Function*,set<Function*>> g; set<Function*> reach; size_t insts=0,stores=0;
    for(Ctx*c:ctxs){ reach.insert(c->F); for(auto&k:c->callees) for(Ctx*t:k.second) g[c->F].insert(t->F); for(auto&I:llvm::instructions(c->F)){ insts++; if(isa<llvm::StoreInst>(I)){ stores++; if(P(c,cast<llvm::StoreInst>(I).getPointerOperand()).empty()) unres.push_back(loc(&I)); } if(auto*cb=dyn_cast<llvm::CallBase>(&I)){ if(cb->isInlineAsm()) continue; auto fs=callsOf(c,cb); if(fs.empty()) indir.push_back(loc(cb)); for(Function*f:fs) if(f->isDeclaration()&&!f->isIntrinsic()) ext.push_back({f->getName().str(),loc(cb)}); } 
        if(auto*cb=dyn_cast<llvm::CallBase>(&I)) if(auto*f=cb->getCalledFunction()) if(f->getName().starts_with("llvm.dbg")) continue;
        for(auto&op:I.operands()){ function<void(Value*)> rec; vector<Value*> st{op.get()}; while(!st.empty()){ Value*v=st.back(); st.pop_back(); if(auto*gv=dyn_cast<llvm::GlobalVariable>(v)){ auto&L=grefs[base(gv->getName().str())]; if(L.size()<20){ Loc l=loc(&I); bool h=false; for(auto&q:L) if(q.line==l.line&&q.fn==l.fn) h=true; if(!h) L.push_back(l); } } else if(auto*ce=dyn_cast<llvm::ConstantExpr>(v)) for(auto&x:ce->operands()) st.push_back(x.get()); } } } }
    for(auto&k:wr){ Value*v=objVal[k.first]; if(auto*gv=dyn_cast<llvm::GlobalVariable>(v)){ auto&L=gwrite[base(gv->getName().str())]; for(auto&l:k.second){ bool h=false; for(auto&q:L) if(q.line==l.line&&q.fn==l.fn) h=true; if(!h) L.push_back(l); } } }
    if(!out) return;
    fprintf(o,"%s\n\"%s\":{\"contexts\":%zu,\"instructions\":%zu,\"stores\":%zu,\"functions\":[",firstE?"":",",name.c_str(),ctxs.size(),insts,stores); firstE=false; bool f1=true; for(auto*f:reach){ fprintf(o,"%s\"%s\"",f1?"":",",base(f->getName().str()).c_str()); f1=false; }
    fprintf(o,"],\"externs\":["); f1=true; set<string> du; for(auto&e:ext){ string k=e.first+e.second.fn+to_string(e.second.line); if(!du.insert(k).second) continue; fprintf(o,"%s{\"callee\":\"%s\",\"at\":%s}",f1?"":",",e.first.c_str(),jl(e.second).c_str()); f1=false; }
    fprintf(o,"],\"indirect\":["); f1=true; for(auto&e:indir){ fprintf(o,"%s%s",f1?"":",",jl(e).c_str()); f1=false; }
    fprintf(o,"],\"asm\":["); f1=true; for(auto&e:asmv){ fprintf(o,"%s%s",f1?"":",",jl(e).c_str()); f1=false; }
    fprintf(o,"],\"unresolved_stores\":["); f1=true; for(auto&e:unres){ fprintf(o,"%s%s",f1?"":",",jl(e).c_str()); f1=false; }
    fprintf(o,"],\"globals\":{"); f1=true; for(auto&e:grefs){ fprintf(o,"%s\"%s\":[",f1?"":",",esc(e.first).c_str()); f1=false; bool f2=true; for(auto&l:e.second){ fprintf(o,"%s%s",f2?"":",",jl(l).c_str()); f2=false; } fprintf(o,"]"); }
    fprintf(o,"},\"cycles\":["); f1=true; // SCC by reachability
    auto reachFrom=[&](Function*s,Function*cut){ set<Function*> r; vector<Function*> st; for(auto*x:g[s]) if(x!=cut&&r.insert(x).second) st.push_back(x); while(!st.empty()){ auto*x=st.back(); st.pop_back(); for(auto*y:g[x]) if(y!=cut&&r.insert(y).second) st.push_back(y); } return r; };
    for(auto*f:reach) if(reachFrom(f,nullptr).count(f)){ fprintf(o,"%s\"%s\"",f1?"":",",base(f->getName().str()).c_str()); f1=false; }
    fprintf(o,"],\"edges\":["); f1=true; for(auto&k:g) for(auto*t:k.second){ fprintf(o,"%s[\"%s\",\"%s\"]",f1?"":",",base(k.first->getName().str()).c_str(),base(t->getName().str()).c_str()); f1=false; }
    fprintf(o,"],\"param_writes\":{"); f1=true; { int i=0; for(auto&a:E->args()){ auto it=objId.find({root,&a}); if(it!=objId.end()&&wr.count(it->second)){ fprintf(o,"%s\"%d\":[",f1?"":",",i); f1=false; bool f2=true; for(auto&l:wr[it->second]){ fprintf(o,"%s%s",f2?"":",",jl(l).c_str()); f2=false; } fprintf(o,"]"); } i++; } }
    fprintf(o,"}}"); (void)ro; };
  for(int i=3;i<argc;i++){ Function*F=M->getFunction(argv[i]); if(!F||F->isDeclaration()){ fprintf(stderr,"no function %s\n",argv[i]); return 5; } analyse(F,{},argv[i],true); }
  fprintf(o,"},\n\"globals\":{"); bool f1=true; for(auto&G:M->globals()){ if(G.getName().starts_with("llvm.")) continue; string n=base(G.getName().str()); fprintf(o,"%s\n\"%s\":{\"const\":%s,\"defined\":%s,\"refs\":[",f1?"":",",esc(n).c_str(),G.isConstant()?"true":"false",G.hasInitializer()?"true":"false"); f1=false;
    bool f2=true; set<string> fs; for(auto*U:G.users()){ vector<llvm::User*> st{U}; while(!st.empty()){ auto*u=st.back(); st.pop_back(); if(auto*I=dyn_cast<Instruction>(u)) fs.insert(base(I->getFunction()->getName().str())); else for(auto*q:u->users()) st.push_back(q); } } for(auto&s:fs){ fprintf(o,"%s\"%s\"",f2?"":",",s.c_str()); f2=false; }
    fprintf(o,"],\"writes\":["); f2=true; for(auto&l:gwrite[n]){ fprintf(o,"%s%s",f2?"":",",jl(l).c_str()); f2=false; } fprintf(o,"]}"); }
  fprintf(o,"}}\n"); fclose(o); return 0; }
