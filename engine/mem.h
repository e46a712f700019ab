// Abstract memory: regions holding ordered byte-content pieces plus a log of writes at symbolic offsets.
#pragma once
#include "terms.h"
typedef shared_ptr<vector<W*>> Cells;
static inline W* C64(u64 x){ return mkConst(64,x); }
struct Piece { u64 n=0; W*sn=nullptr; Arr*arr=nullptr; W*off=nullptr; Cells cells; u32 cs=0; // length n (or symbolic sn); run arr[off..] or cells[cs..cs+n)
  W* byte(u64 i)const{ return arr? selByte(arr,wAdd(off,C64(i))): (*cells)[cs+i]; } };
typedef vector<Piece> Blob;
static inline Piece runP(Arr*a,W*off,u64 n){ Piece p; p.n=n; p.arr=a; p.off=off; return p; }
static inline Piece runS(Arr*a,W*off,W*n){ Piece p; if(isC(n)) return runP(a,off,n->c); p.n=0; p.sn=n; p.arr=a; p.off=off; return p; }
static inline Piece cellsP(vector<W*> v){ Piece p; p.n=v.size(); p.cells=make_shared<vector<W*>>(move(v)); return p; }
static inline Piece subP(const Piece&p,u64 o,u64 n){ Piece q; q.n=n; if(p.arr){ q.arr=p.arr; q.off=o?wAdd(p.off,C64(o)):p.off; } else { q.cells=p.cells; q.cs=p.cs+o; } return q; }
static inline u64 blobLen(const Blob&b,bool*sym=nullptr){ u64 n=0; if(sym)*sym=false; for(auto&p:b){ if(p.sn&&sym)*sym=true; n+=p.n; } return n; }
static inline W* blobLenW(const Blob&b){ W*w=C64(0); for(auto&p:b) w=wAdd(w,p.sn?p.sn:C64(p.n)); return w; }
Blob blobSub(const Blob&b,u64 o,u64 n);
vector<W*> blobBytes(const Blob&b);
Blob canonBlob(const Blob&b,Fact*f=nullptr);
u128 blobHash(const Blob&b);
u32 blobAttr(const Blob&b);

struct LogE { Lit g=TRUE_; W*off=nullptr; W*len=nullptr; Blob c; u32 esz=1; u64 serial=0; i128 hlo=0,hhi=(i128)1<<70; };
struct ChainSeg { size_t b,e; W*cend; Arr*carr; };
struct RegInfo { int id; string name; W*size; W*base; bool readonly=false; bool isFn=false; void*fn=nullptr; u32 esz=0; bool eszBad=false; Arr*uninit; void*gv=nullptr; };
struct RegC { vector<u64> k; map<u64,Piece> segs; vector<LogE> log; Arr*sym=nullptr; W*symoff=nullptr; mutable map<pair<u64,u64>,Arr*> snap; mutable int chain=0; mutable unordered_map<W*,int> cidx; mutable vector<ChainSeg> csegs; mutable vector<u32> cseg; };
typedef shared_ptr<RegC> RP;
struct Val { W*w=nullptr; shared_ptr<vector<Val>> v; bool operator==(const Val&o)const{ if(w!=o.w) return false; if(v==o.v) return true; if(!v||!o.v||v->size()!=o.v->size()) return false; for(size_t i=0;i<v->size();i++) if(!((*v)[i]==(*o.v)[i])) return false; return true; } };
struct State { vector<pair<int,RP>> mem; Fact*f=nullptr; vector<Val> regs; vector<int> allocas; bool dead=false; };
extern vector<RegInfo> Regs;
extern unordered_map<W*,int> baseReg;
// sum of many single bits (a running counter): kept as it is, reducing every bit gains nothing
static inline bool counterLike(W*w){ if(w->k!=W_LIN||w->t.size()<6) return false; for(auto&p:w->t) if(!(p.first->k==W_BITS&&p.first->w==1)) return false; return true; }
int newRegion(const string&name,W*size);
RP initContent(int rid);
RP* findReg(State&s,int rid);
RegC& mutReg(State&s,int rid);
struct PD { int rid; W*off; };            // rid 0: null/unknown
PD decodePtr(W*p);
// operations (no bounds checking)
Blob readMem(State&s,int rid,W*off,W*len);
void writeMem(State&s,int rid,W*off,const Blob&b,W*len,u32 esz);
State joinStates(State&a,State&b,const function<bool(int)>&isPhi);
State joinAll(vector<State>&v,const function<bool(int)>&isPhi);
W* elemVal(const Blob&b,u32 n,Fact*f);
