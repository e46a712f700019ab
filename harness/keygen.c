// LESS_keygen against its specification; -DP_Cxx selects the property checked.
#include "less_uf.h"
#define PRI PRIVATE_KEY_SEED_LENGTH_BYTES
static void randombytes_at(SHAKE_STATE_STRUCT*s,unsigned char*p,size_t n){ ai_sponge_squeeze(p,n,sizeof*s,s,XOFNAME "/system"); }
void ai_main(void){
  prikey_t*sk=ai_object(sizeof*sk,"SK"); pubkey_t*pk=ai_object(sizeof*pk,"PK");
  ai_sponge_seed(&platform_csprng_state,sizeof platform_csprng_state,XOFNAME "/system",ai_u64("rand.pos",0,1u<<30));
  SHAKE_STATE_STRUCT src=platform_csprng_state;
  LESS_keygen(sk,pk);
#ifdef P_C07
  { // the two seeds are consecutive full-length draws, nothing else is drawn
    unsigned char a[PRI],b[SEED_LENGTH_BYTES],c[SEED_LENGTH_BYTES],d[PRI]; SHAKE_STATE_STRUCT s1=src,s2=src;
    randombytes_at(&s1,a,PRI); randombytes_at(&s1,b,SEED_LENGTH_BYTES); randombytes_at(&s2,c,SEED_LENGTH_BYTES); randombytes_at(&s2,d,PRI);
    if(ai_same(sk->compressed_sk,d,PRI)&&!ai_same(sk->compressed_sk,a,PRI)){ ai_prove_eq(sk->G_0_seed,c,SEED_LENGTH_BYTES,"public-code seed is a full fresh draw"); }
    else { ai_prove_eq(sk->compressed_sk,a,PRI,"secret seed is a full fresh draw from the system source"); ai_prove_eq(sk->G_0_seed,b,SEED_LENGTH_BYTES,"public-code seed is a full fresh draw from the system source"); }
    ai_prove_eq(&platform_csprng_state,&s1,sizeof s1,"exactly the two seeds are drawn by key generation"); }
#endif
#if defined(P_C25)||defined(P_C11)||defined(P_C01)
  { unsigned char seeds[NUM_KEYPAIRS-1][PRI]; SHAKE_STATE_STRUCT x; initialize_csprng(&x,sk->compressed_sk,PRI);
    for(int i=0;i<NUM_KEYPAIRS-1;i++) csprng_randombytes(seeds[i],PRI,&x);
    rref_generator_mat_t g; generator_mat_t G; generator_SF_seed_expand(&g,sk->G_0_seed); generator_rref_expand(&G,&g);
    for(int i=0;i<NUM_KEYPAIRS-1;i++){ monomial_t q,qi; generator_mat_t R; uint8_t piv[N]; uint8_t out[RREF_MAT_PACKEDBYTES]; for(int j=0;j<N;j++) piv[j]=0;
      monomial_mat_seed_expand_prikey(&qi,seeds[i]); monomial_mat_inv(&q,&qi); generator_monomial_mul(&R,&G,&q); generator_RREF(&R,piv); compress_rref(out,&R,piv);
      ai_prove_eq(pk->SF_G[i],out,RREF_MAT_PACKEDBYTES,"public matrix of slot i is SF(G0 * Q_i^-1) for the i-th secret seed of the expansion"); }
    ai_prove_eq(pk->G_0_seed,sk->G_0_seed,SEED_LENGTH_BYTES,"public key carries the public-code seed only"); }
#endif
#ifdef P_C15
  ai_prove_init(sk,sizeof*sk,"secret key"); ai_prove_init(pk,sizeof*pk,"public key");
#endif
  ai_reach("keygen");
}
