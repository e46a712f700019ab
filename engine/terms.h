// Abstract value domain: hash-consed boolean literals, machine words, byte arrays, fact tree.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <functional>
using namespace std;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

struct Unsupported { string msg; };
[[noreturn]] void unsupported(const string &m);

static inline u64 mix64(u64 x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ULL; x^=x>>27; x*=0x94d049bb133111ebULL; x^=x>>31; return x; }
struct H { u64 a=0x243f6a8885a308d3ULL,b=0x13198a2e03707344ULL;
  H&add(u64 x){ a=mix64(a^(x+0x9e3779b97f4a7c15ULL)); b=mix64(b*0xd6e8feb86659fd93ULL+x+0x632be59bd9b4e019ULL)^(a>>7); return *this; }
  H&add(u128 x){ add((u64)x); return add((u64)(x>>64)); }
  H&add(const string&s){ add((u64)s.size()); for(unsigned char c:s) add((u64)c); return *this; }
  u128 get()const{ return ((u128)a<<64)|b; } };
struct H128 { size_t operator()(u128 x)const{ return (u64)x^(u64)(x>>64); } };
template<class V> using HMap=unordered_map<u128,V,H128>;

// attribute bits
enum { A_UNINIT=1, A_SECRET=2, A_LABEL0=4 };

typedef u32 Lit; const Lit FALSE_=0, TRUE_=1;
static inline Lit NOT(Lit l){ return l^1; }
struct W; struct Arr; struct LSet;
enum BK:u8 { B_CONST,B_BITOF,B_AND,B_XOR,B_NEG,B_EQZ,B_OPQ };
struct BN { BK k; u8 idx; u32 attr; W*w; LSet*set; Lit x,y; u128 sig; W*eqw; u64 eqc; };
extern vector<BN> BNs;

struct LSet { Lit l; LSet*L,*R; u128 h; u32 n; u32 attr; };

enum WK:u8 { W_CONST,W_BITS,W_LIN,W_OP };
enum OpC:u16 { OP_NONE,OP_MUL,OP_UREM,OP_UDIV,OP_SREM,OP_SDIV,OP_SHL,OP_LSHR,OP_ASHR,OP_ITE,OP_SEL,OP_HAVOC,OP_UFRET };
struct W { WK k; u8 w; u16 op; u32 attr; u64 c; u32 n; vector<Lit> b; vector<pair<W*,i64>> t; vector<W*> a; Arr*arr=nullptr; i128 lo,hi; u128 h; u32 id; vector<Lit>*bc=nullptr; };
// for LIN: c as signed in (i64)c. width 0 = ideal integer form.

enum AK:u8 { A_BASE,A_CONSTB,A_ITE,A_SPONGE,A_BYTES,A_CHAIN };
struct TNode { TNode*prev; Arr*arr; W*off; W*len; u128 h; u32 depth; };
struct Arr { AK k; string name; u32 elem=1; u64 elo=0,ehi=255; u32 attr=0; Lit c=0; Arr*a=nullptr,*b=nullptr; W*d=nullptr; u128 h; u32 id;
  TNode*t=nullptr; string variant; int phase=0; W*q=nullptr; u8 cb=0; vector<W*> bytes; };

struct Fact { Fact*parent,*jump; u32 depth; Lit lit; bool pc; W*rw; i128 rlo,rhi; u32 id; };

void initTerms();
Lit mkXor(Lit a,Lit b); Lit mkAnd(Lit a,Lit b); 
static inline Lit mkOr(Lit a,Lit b){ return NOT(mkAnd(NOT(a),NOT(b))); }
Lit mkMux(Lit c,Lit x,Lit y); Lit mkEqv(Lit a,Lit b);
void setVec(LSet*s,vector<Lit>&o);
Lit mkBitOf(W*w,int i);
u32 litAttr(Lit l);

W* mkConst(int w,u64 c);
W* mkBits(int w,const vector<Lit>&b);
W* mkLin(int w,i64 c,vector<pair<W*,i64>> t);
W* mkOp(int w,u16 op,const vector<W*>&a,u64 c,Arr*arr,i128 lo,i128 hi,u32 attr);
const vector<Lit>& bitsOf(W*w);
struct LinF { i64 c; vector<pair<W*,i64>> t; };
LinF toLin(W*w);               // w's value as linear form (exact: value == form mod 2^w)
static inline bool isC(W*w){ return w->k==W_CONST; }
static inline u64 maskw(int w){ return w>=64?~0ULL:((1ULL<<w)-1); }

struct Range { i128 lo,hi; };
Range rangeOf(W*w,Fact*f);     // range of the ideal value (LIN) or unsigned value
bool urange(W*w,Fact*f,u64&lo,u64&hi); // unsigned range (always valid; full if unknown)
Range linRange(const LinF&l,Fact*f);

W* wAdd(W*a,W*b); W* wSub(W*a,W*b); W* wNeg(W*a); W* wMulC(W*a,i64 c);
W* wMul(W*a,W*b,Fact*f);
W* wAnd(W*a,W*b); W* wOr(W*a,W*b); W* wXor(W*a,W*b); W* wNot(W*a);
W* wShl(W*a,W*b,Fact*f); W* wLshr(W*a,W*b,Fact*f); W* wAshr(W*a,W*b,Fact*f);
W* wDivRem(int op,W*a,W*b,Fact*f);
W* wZext(W*a,int w,Fact*f); W* wSext(W*a,int w,Fact*f); W* wTrunc(W*a,int w);
W* wIte(Lit c,W*a,W*b);
W* wConcat(const vector<W*>&bytes); // little endian bytes
W* wByte(W*a,int i);
Lit cEq(W*a,W*b,Fact*f); Lit cUlt(W*a,W*b,Fact*f); Lit cSlt(W*a,W*b,Fact*f);
Lit cNeg(LinF l,Fact*f);   // l<0 over the integers
W* litW(Lit l);
W* mkHavoc(int w,const string&name,i128 lo,i128 hi,u32 attr=0);

// facts
Fact* factAssume(Fact*f,Lit l,bool pc);
Fact* factRange(Fact*f,W*base,i128 lo,i128 hi);
Fact* factHull(Fact*f,W*w,i128 lo,i128 hi); extern bool joinHulls;
bool haveEqualities(); void addEquality(const LinF&l); // l == 0 globally (given assumptions)
int litEval(Lit l,Fact*f);      // -1 unknown, 0 false, 1 true
Lit litReduce(Lit l,Fact*f);
W* wReduce(W*w,Fact*f);
bool isAncestor(Fact*a,Fact*d);
Fact* lca(Fact*a,Fact*b); Fact* anc(Fact*a,u32 depth);
Lit suffixAnd(Fact*f,Fact*anc);
// arrays
Arr* mkBase(const string&name,u32 elem,u64 lo,u64 hi,u32 attr,bool fresh);
Arr* mkConstB(u8 v);
Arr* mkIteArr(Lit c,Arr*a,Arr*b,W*d); // content(i) = c? a[i] : b[i+d]
Arr* mkChainArr(u128 h,u32 attr);
Arr* mkBytesArr(const vector<W*>&b);
Arr* mkSpongeArr(const string&variant,int phase,TNode*t,W*q);
W* selByte(Arr*a,W*off);
W* selElem(Arr*a,W*off,int n,Fact*f);
Arr* arrResolve(Arr*a,W*&off,Fact*f);
// finite proof
bool tableProve(Lit goal,Fact*f,string*why,int maxbits);
string litStr(Lit l,int depth=3); string wStr(W*w,int depth=4); string arrStr(Arr*a);
extern u64 stTables, stTableRows;
