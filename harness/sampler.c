// Samplers and expansions: loops with unbounded rejection are solved by fixpoints; every draw returns arbitrary bytes and
// (C08) must come from an extendable-output function that absorbed exactly the specified input.
#include <string.h>
#include "ai.h"
#include "LESS.h"
#include "codes.h"
#include "monomial_mat.h"
#include "fq_arith.h"
#include "rng.h"
#include "utils.h"
static SHAKE_STATE_STRUCT expected; static void drawn(unsigned char*out,size_t n,void*ctx,size_t sz);
#define ON_SQUEEZE(out,n,s,NAME) drawn(out,n,s,sizeof*s);
#include "hash_stubs.h"
static unsigned anyctx;
static void drawn(unsigned char*out,size_t n,void*ctx,size_t sz){ ai_fresh(out,n,"random bits",1,0,255,0);
#ifdef P_C08
  ai_prove_eq(ctx,&expected,sz,"the expansion must draw from a function of exactly its whole specified input"); ai_reach("draw");
#endif
}
static void expect(const void*p,size_t n,const void*q,size_t m,const void*r,size_t o){ xof_shake_init(&expected,SEED_LENGTH_BYTES*8); xof_shake_update(&expected,p,n); if(m) xof_shake_update(&expected,q,m); if(o) xof_shake_update(&expected,r,o); xof_shake_final(&expected); }
static unsigned char*obj(size_t n,const char*s){ unsigned char*p=ai_object(n,s); ai_fresh(p,n,s,1,0,255,0); ai_readonly(p,1); return p; }
static void monomial_ok(monomial_t*m){ ai_prove_init(m->coefficients,N*sizeof m->coefficients[0],"every coefficient is defined"); ai_prove_init(m->permutation,N*sizeof m->permutation[0],"every position is defined");
  ai_prove_range(m->coefficients,N*sizeof m->coefficients[0],sizeof m->coefficients[0],1,Q-1,"coefficients are nonzero field elements"); ai_prove_range(m->permutation,N*sizeof m->permutation[0],sizeof m->permutation[0],0,N-1,"positions are valid");
  ai_prove_perm(m->permutation,N,sizeof m->permutation[0],"the permutation is obtained from the identity by exchanges"); }
#ifdef P_C19
void ai_req_expand_digest_to_fixed_weight(void){}
void ai_main(void){ unsigned char*d=obj(HASH_DIGEST_LENGTH,"digest"); uint8_t*f=ai_object(T,"challenge"); memset(f,0,T); ai_fix("expand_digest_to_fixed_weight");
  expand_digest_to_fixed_weight(f,d);
  ai_prove_init(f,T,"every challenge entry is defined"); ai_prove_range(f,T,1,0,NUM_KEYPAIRS-1,"challenge entries are key pair indices"); ai_prove_weight(f,T,W,"exactly w challenge entries are nonzero and none is overwritten"); ai_reach("challenge"); }
#elif defined(P_C08)
void ai_req_expand_digest_to_fixed_weight(void){} void ai_req_monomial_mat_seed_expand_salt_rnd(void){} void ai_req_monomial_mat_seed_expand_prikey(void){} void ai_req_generator_SF_seed_expand(void){}
void ai_main(void){ ai_fix("*");
  { unsigned char*d=obj(HASH_DIGEST_LENGTH,"digest"); uint8_t*f=ai_object(T,"challenge"); memset(f,0,T); expect(d,HASH_DIGEST_LENGTH,0,0,0,0); expand_digest_to_fixed_weight(f,d); ai_reach("challenge"); }
  { unsigned char*seed=obj(SEED_LENGTH_BYTES,"seed"),*salt=obj(HASH_DIGEST_LENGTH,"salt"); uint16_t*r=ai_object(2,"round"); *r=ai_u64("round",0,65535); monomial_t*m=ai_object(sizeof*m,"monomial"); expect(seed,SEED_LENGTH_BYTES,salt,HASH_DIGEST_LENGTH,r,2); monomial_mat_seed_expand_salt_rnd(m,seed,salt,*r); ai_reach("ephemeral"); }
  { unsigned char*seed=obj(PRIVATE_KEY_SEED_LENGTH_BYTES,"secret monomial seed"); monomial_t*m=ai_object(sizeof*m,"monomial"); expect(seed,PRIVATE_KEY_SEED_LENGTH_BYTES,0,0,0,0); monomial_mat_seed_expand_prikey(m,seed); ai_reach("secret"); }
  { unsigned char*seed=obj(SEED_LENGTH_BYTES,"code seed"); rref_generator_mat_t*g=ai_object(sizeof*g,"code"); expect(seed,SEED_LENGTH_BYTES,0,0,0,0); generator_SF_seed_expand(g,seed); ai_reach("code"); }
}
#else
static void field(const char*nm,int star,int global,size_t n){ FQ_ELEM*b=ai_object(n*sizeof*b,nm); SHAKE_STATE_STRUCT*st=ai_object(sizeof*st,"csprng"); ai_fresh(st,sizeof*st,"csprng",1,0,255,0); ai_draws(b,n*sizeof*b,sizeof*b,star?1:0);
  if(global){ if(star) fq_star_rnd_elements(b,n); else rand_range_q_elements(b,n); } else { if(star) fq_star_rnd_state_elements(st,b,n); else rand_range_q_state_elements(st,b,n); }
  ai_prove_init(b,n*sizeof*b,"every requested element is written"); ai_prove_range(b,n*sizeof*b,sizeof*b,star?1:0,Q-1,"elements are in the requested range"); ai_draws(b,0,0,0); ai_reach("field"); }
void ai_req_monomial_mat_seed_expand_salt_rnd(void){} void ai_req_monomial_mat_seed_expand_prikey(void){} void ai_req_generator_SF_seed_expand(void){}
void ai_main(void){ ai_fix("*");
  for(int g=0;g<2;g++) for(int s=0;s<2;s++){ field("elements",s,g,N); field("row",s,g,N-K); field("some",s,g,16); }
  { unsigned char*seed=obj(SEED_LENGTH_BYTES,"seed"),*salt=obj(HASH_DIGEST_LENGTH,"salt"); uint64_t r=ai_u64("round",0,T-1); monomial_t*m=ai_object(sizeof*m,"monomial"); monomial_mat_seed_expand_salt_rnd(m,seed,salt,r); monomial_ok(m); ai_reach("ephemeral"); }
  { unsigned char*seed=obj(PRIVATE_KEY_SEED_LENGTH_BYTES,"secret monomial seed"); monomial_t*m=ai_object(sizeof*m,"monomial"); monomial_mat_seed_expand_prikey(m,seed); monomial_ok(m); ai_reach("secret"); }
  { unsigned char*seed=obj(SEED_LENGTH_BYTES,"code seed"); rref_generator_mat_t*g=ai_object(sizeof*g,"code"); generator_SF_seed_expand(g,seed);
    for(int i=0;i<K;i++){ ai_prove_init(g->values[i],N-K,"every generator entry is defined"); ai_prove_range(g->values[i],N-K,1,0,Q-1,"generator entries are field elements"); }
    for(int i=0;i<N-K;i++) ai_prove_eqv(g->column_pos[i],i+K,"non-pivot columns are the last N-K"); ai_reach("code"); }
}
#endif
