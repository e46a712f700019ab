// LESS_sign against its specification; -DP_Cxx selects the property checked.
#include "less_uf.h"
#define PRI PRIVATE_KEY_SEED_LENGTH_BYTES
static void sysdraw(SHAKE_STATE_STRUCT*s,unsigned char*p,size_t n){ ai_sponge_squeeze(p,n,sizeof*s,s,XOFNAME "/system"); }
static monomial_action_IS_t Qb[T];
void ai_main(void){
  prikey_t*sk=ai_object(sizeof*sk,"SK"); sign_t*sig=ai_object(sizeof*sig,"signature");
  ai_fresh(sk->compressed_sk,PRI,"SK.secret",1,0,255,0); ai_fresh(sk->G_0_seed,SEED_LENGTH_BYTES,"SK.G0seed",1,0,255,0); ai_readonly(sk,1);
  uint64_t mlen=ai_u64("mlen",0,1ull<<40); char*m=ai_object(mlen,"message"); ai_fresh(m,mlen,"message",1,0,255,0); ai_readonly(m,1);
  ai_sponge_seed(&platform_csprng_state,sizeof platform_csprng_state,XOFNAME "/system",ai_u64("rand.pos",0,1u<<30));
  SHAKE_STATE_STRUCT src=platform_csprng_state;
  size_t num=LESS_sign(sk,m,mlen,sig);
  // the two admissible orders of the two system draws
  unsigned char root[SEED_LENGTH_BYTES],r2[SEED_LENGTH_BYTES],s1[HASH_DIGEST_LENGTH],s2[HASH_DIGEST_LENGTH]; SHAKE_STATE_STRUCT a=src,b=src;
  sysdraw(&a,root,SEED_LENGTH_BYTES); sysdraw(&a,s1,HASH_DIGEST_LENGTH); sysdraw(&b,s2,HASH_DIGEST_LENGTH); sysdraw(&b,r2,SEED_LENGTH_BYTES);
  int alt=ai_same(sig->tree_salt,s2,HASH_DIGEST_LENGTH)&&!ai_same(sig->tree_salt,s1,HASH_DIGEST_LENGTH);
  if(alt) memcpy(root,r2,SEED_LENGTH_BYTES);
  const unsigned char*salt=sig->tree_salt;
#ifdef P_C07
  { ai_prove_eq(salt,alt?s2:s1,HASH_DIGEST_LENGTH,"salt is a full fresh draw from the system source");
    ai_prove_eq(&platform_csprng_state,&a,sizeof a,"exactly the ephemeral seed and the salt are drawn by signing"); }
#endif
#if defined(P_C07)||defined(P_C01)||defined(P_C25)||defined(P_C09)
  uint8_t tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES]; generate_seed_tree_from_root(tree,root,salt);
#endif
#if defined(P_C01)||defined(P_C25)
  const uint8_t*leaves=tree+SEED_LENGTH_BYTES*(NUM_LEAVES_OF_SEED_TREE-1);
  rref_generator_mat_t g; generator_mat_t G; generator_SF_seed_expand(&g,sk->G_0_seed); generator_rref_expand(&G,&g);
  LESS_SHA3_INC_CTX h; LESS_SHA3_INC_INIT(&h); 
  for(int i=0;i<T;i++){ monomial_t q; normalized_IS_t V; monomial_mat_seed_expand_salt_rnd(&q,leaves+i*SEED_LENGTH_BYTES,salt,i); prepare_digest_input(&V,&Qb[i],&G,&q); LESS_SHA3_INC_ABSORB(&h,(uint8_t*)&V,sizeof(normalized_IS_t)); }
#endif
#ifdef P_C01
  { uint8_t d[HASH_DIGEST_LENGTH]; LESS_SHA3_INC_ABSORB(&h,(uint8_t*)m,mlen); LESS_SHA3_INC_ABSORB(&h,salt,HASH_DIGEST_LENGTH); LESS_SHA3_INC_FINALIZE(d,&h);
    ai_prove_eq(sig->digest,d,HASH_DIGEST_LENGTH,"signature digest is H(commitment of every round | whole message | whole salt)"); }
#endif
#if defined(P_C25)||defined(P_C07)||defined(P_C09)
  uint8_t f[T]; for(int i=0;i<T;i++) f[i]=0; expand_digest_to_fixed_weight(f,sig->digest);
  { uint8_t idx[T]; for(int i=0;i<T;i++) idx[i]=f[i]!=0; uint8_t st[SEED_TREE_MAX_PUBLISHED_BYTES]; uint32_t n=seed_tree_path(tree,idx,st);
    ai_prove_eq(sig->seed_storage,st,n*SEED_LENGTH_BYTES,"published seeds come from the tree grown from the whole ephemeral seed and salt");
    ai_prove_eqv(num,n,"number of published seeds"); ai_prove_eqv(sig->seed_storage[n*SEED_LENGTH_BYTES],(uint8_t)n,"count byte"); }
#endif
#ifdef P_C25
  { unsigned char seeds[NUM_KEYPAIRS-1][PRI]; SHAKE_STATE_STRUCT x; initialize_csprng(&x,sk->compressed_sk,PRI); for(int i=0;i<NUM_KEYPAIRS-1;i++) csprng_randombytes(seeds[i],PRI,&x);
    unsigned cnt=0; 
    for(int i=0;i<T;i++) if(f[i]!=0){ monomial_t q; monomial_action_IS_t act; uint8_t out[MONO_ACTION_PACKEDBYTES];
      monomial_mat_seed_expand_prikey(&q,seeds[f[i]-1]); monomial_compose_action(&act,&q,&Qb[i]); compress_monom_action(out,&act);
      ai_prove_eq(sig->monom_actions[cnt],out,MONO_ACTION_PACKEDBYTES,"response of a challenged round uses the secret of its slot and the commitment action of the same round, stored in round order"); cnt++; } }
#endif
#ifdef P_C15
  ai_prove_init(sig->tree_salt,HASH_DIGEST_LENGTH,"salt in signature"); ai_prove_init(sig->digest,HASH_DIGEST_LENGTH,"digest in signature");
  ai_prove_init(sig->monom_actions,sizeof sig->monom_actions,"responses in signature"); ai_prove_init(sig->seed_storage,num*SEED_LENGTH_BYTES,"published seeds in signature"); ai_prove_init(sig->seed_storage+num*SEED_LENGTH_BYTES,1,"count byte in signature");
#endif
  ai_reach("sign");
}
