// Interface between harnesses (specifications) and the analyser. Bodies do not exist: the analyser interprets the calls.
#pragma once
#include <stdint.h>
#include <stddef.h>
uint64_t ai_u64(const char*name,uint64_t lo,uint64_t hi);                     // arbitrary value in [lo,hi]
void ai_fresh(void*p,size_t n,const char*name,int elem,uint64_t lo,uint64_t hi,int attr); // arbitrary contents
void*ai_object(size_t size,const char*name);                                   // object of (symbolic) size
void ai_assume(int c); void ai_prove(int c,const char*msg);
void ai_prove_eq(const void*a,const void*b,size_t n,const char*msg); void ai_prove_eqv(uint64_t a,uint64_t b,const char*msg);
void ai_prove_init(const void*a,size_t n,const char*msg); void ai_prove_range(const void*a,size_t n,int elem,uint64_t lo,uint64_t hi,const char*msg);
void ai_readonly(const void*p,int on); void ai_reach(const char*what); void ai_fix(const char*fn); void ai_ct(int on);
int ai_is_const(uint64_t v); void ai_print(const char*n,uint64_t v); void ai_dump(const char*n,const void*p,size_t len);
void ai_sponge_init(void*ctx,size_t sz,const char*v); void ai_sponge_seed(void*ctx,size_t sz,const char*v,uint64_t q);
void ai_sponge_absorb(void*ctx,size_t sz,const void*p,size_t n,const char*v); void ai_sponge_final(void*ctx,size_t sz,const char*v);
void ai_sponge_squeeze(void*out,size_t n,size_t sz,void*ctx,const char*v); void ai_sponge_digest(void*out,size_t n,size_t sz,void*ctx,const char*v);
void ai_uf_begin(const char*n); void ai_uf_in(const void*p,size_t n); void ai_uf_val(uint64_t v); void ai_uf_out(void*p,size_t n,int elem,uint64_t lo,uint64_t hi,const char*tag); uint64_t ai_uf_ret(int bits,uint64_t lo,uint64_t hi);
void ai_hash_out(const void*p,size_t n,const char*tag); void ai_assume_weight(const void*p,size_t n,uint64_t v);
void ai_prove_guarded(const void*store,const void*src,size_t sz,const void*flags,size_t n,const char*msg); // every piece of src (element size sz) written to store under guard g: g implies flags[element]==0
uint64_t ai_ghost(const char*n); int ai_same(const void*a,const void*b,size_t n);
void ai_prove_perm(const void*p,size_t n,size_t esz,const char*msg);            // content is 0..n-1 rearranged by exchanges
void ai_prove_weight(const void*p,size_t n,uint64_t w,const char*msg);           // exactly w bytes were set, each from 0 to a nonzero value, the rest is 0
void ai_draws(const void*p,size_t n,size_t esz,uint64_t min);                    // from now on (n>0) every element stored to p must be min + unmodified fresh random bits
#define AI_SECRET 2
