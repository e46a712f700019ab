// SHA3/SHAKE interfaces against a byte-by-byte sponge; the permutation is an uninterpreted function (see keccakf.c).
// The specification absorbs and squeezes one byte at a time, so agreement for two consecutive calls at every position means
// that splitting the input or the output differently cannot change the result.
#include <string.h>
#include "ai.h"
#include "fips202.h"
#include "keccakf1600.h"
void ai_stub_KeccakF1600_StatePermute(uint64_t*s){ ai_uf_begin("keccakf"); ai_uf_in(s,200); ai_uf_out(s,200,8,0,~0ull,"lane"); }
void ai_req_KeccakF1600_StatePermute(void){}
typedef struct { uint64_t st[25]; unsigned pos,rate; } spec_t;
static void sp_init(spec_t*s,unsigned rate){ memset(s->st,0,200); s->pos=0; s->rate=rate; }
static void sp_absorb(spec_t*s,const uint8_t*m,size_t n){ for(size_t i=0;i<n;i++){ ((uint8_t*)s->st)[s->pos++]^=m[i]; if(s->pos==s->rate){ KeccakF1600_StatePermute(s->st); s->pos=0; } } }
static void sp_final(spec_t*s,uint8_t dom){ ((uint8_t*)s->st)[s->pos]^=dom; ((uint8_t*)s->st)[s->rate-1]^=0x80; s->pos=s->rate; }
static void sp_squeeze(spec_t*s,uint8_t*o,size_t n){ for(size_t i=0;i<n;i++){ if(s->pos==s->rate){ KeccakF1600_StatePermute(s->st); s->pos=0; } o[i]=((uint8_t*)s->st)[s->pos++]; } }
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define CTX CAT(V,incctx)
#define F(x) CAT(V,x)
#if V_XOF
#define DOM 0x1F
#else
#define DOM 0x06
#endif
static void*buf(size_t n,const char*nm){ uint8_t*p=ai_object(n,nm); if(n) ai_fresh(p,n,nm,1,0,255,0); ai_readonly(p,1); return p; }
// absorb first | second | third, then squeeze o1 | o2
static void run(size_t a,size_t b,size_t o1,size_t o2){
  uint8_t*x=buf(a,"first"),*y=buf(b,"second"),*p=ai_object(o1,"out1"),*q=ai_object(o2,"out2"),*ep=ai_object(o1,"exp1"),*eq=ai_object(o2,"exp2");
  CTX*c=ai_object(sizeof(CTX),"context"); spec_t s; sp_init(&s,RATE);
  F(_inc_init)(c); F(_inc_absorb)(c,x,a); F(_inc_absorb)(c,y,b); sp_absorb(&s,x,a); sp_absorb(&s,y,b); sp_final(&s,DOM);
#if V_XOF
  F(_inc_finalize)(c); F(_inc_squeeze)(p,o1,c); F(_inc_squeeze)(q,o2,c); sp_squeeze(&s,ep,o1); sp_squeeze(&s,eq,o2);
  ai_prove_eq(p,ep,o1,"first output is the FIPS 202 output of the whole input"); ai_prove_eq(q,eq,o2,"later output continues it");
#else
  (void)q;(void)eq; F(_inc_finalize)(p,c); sp_squeeze(&s,ep,o1); ai_prove_eq(p,ep,o1,"digest is the FIPS 202 digest of the whole input");
#endif
  ai_reach("sponge");
}
static void oneshot(size_t a,size_t o){ uint8_t*x=buf(a,"input"),*p=ai_object(o,"out"),*e=ai_object(o,"exp"); spec_t s; sp_init(&s,RATE); sp_absorb(&s,x,a); sp_final(&s,DOM); sp_squeeze(&s,e,o);
#if V_XOF
  V(p,o,x,a);
#else
  V(p,x,a);
#endif
  ai_prove_eq(p,e,o,"one-shot function"); ai_reach("oneshot"); }
#ifndef STEP
#define STEP 1
#endif
void ai_main(void){
  const size_t r=RATE;
#if V_XOF
  size_t O=r+9;
#else
  size_t O=OUTLEN;
#endif
  for(size_t a=0;a<r;a+=STEP){ size_t bs[]={0,1,2,9,r-a-1,r-a,r-a+1,2*r-a-1,2*r-a,2*r-a+1,3*r-a}; for(unsigned k=0;k<sizeof bs/sizeof*bs;k++) run(r+a,bs[k],O,0); }
#if V_XOF
  for(size_t o=0;o<=r;o+=STEP){ size_t os[]={0,1,2,9,r-o,r-o+1,2*r-o,2*r-o+1}; for(unsigned k=0;k<sizeof os/sizeof*os;k++) run(5,0,o,os[k]); run(5,0,r+o,r); }
#endif
  size_t as[]={0,1,7,8,9,r-2,r-1,r,r+1,2*r-1,2*r,2*r+1}; for(unsigned k=0;k<sizeof as/sizeof*as;k++){ run(as[k],0,O,1); oneshot(as[k],O); }
}
