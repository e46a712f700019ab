// LESS_verify against its specification; -DP_Cxx selects the property checked.
#ifdef P_C22
extern unsigned gh_unpacked,gh_valid; // outcome of the last decoding and of the last validity check
#define RREF_OK 1
#define EXPAND_OK (int)(gh_unpacked=ai_uf_ret(1,0,1))
#define VALID_OK (int)(gh_valid=ai_uf_ret(1,0,1))
#define BEFORE_ACTION(g,a) ai_prove(gh_unpacked==1,"only a public matrix that decoded is acted on"); ai_prove(gh_valid==1,"only an action that passed the validity check is applied");
#elif defined(P_C02)
#define RREF_OK 1
#define EXPAND_OK 1
#define VALID_OK ai_uf_ret(1,0,1)
#else
#define RREF_OK 1
#define EXPAND_OK 1
#define VALID_OK 1
#endif
#ifndef PIVPAT
#define PIVPAT(i) ((i)%2)
#endif
#include <string.h>
#include "less_uf.h"
#ifdef P_C22
unsigned gh_unpacked,gh_valid;
#endif
void ai_main(void){
  pubkey_t*pk=ai_object(sizeof*pk,"PK"); sign_t*sig=ai_object(sizeof*sig,"signature");
  ai_fresh(pk,sizeof*pk,"PK.bytes",1,0,255,0); ai_readonly(pk,1); ai_fresh(sig,sizeof*sig,"sig.bytes",1,0,255,0); ai_readonly(sig,1);
  uint64_t mlen=ai_u64("mlen",0,1ull<<40); char*m=ai_object(mlen,"message"); ai_fresh(m,mlen,"message",1,0,255,0); ai_readonly(m,1);
#ifdef P_C10
  gh_sig=sig; LESS_verify(pk,m,mlen,sig); ai_reach("verify"); return;
#endif
  int r=LESS_verify(pk,m,mlen,sig);
#ifdef P_C22
  ai_prove(r==0||r==1,"the verdict is 0 or 1"); ai_reach("verify"); return;
#endif
  uint8_t f[T]; for(int i=0;i<T;i++) f[i]=0; expand_digest_to_fixed_weight(f,sig->digest);
  uint8_t idx[T]; for(int i=0;i<T;i++) idx[i]=f[i]!=0;
  uint8_t tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES]; memset(tree,0,sizeof tree);
  rebuild_seed_tree_leaves(tree,idx,sig->seed_storage,sig->tree_salt);
  const uint8_t*leaves=tree+SEED_LENGTH_BYTES*(NUM_LEAVES_OF_SEED_TREE-1);
  rref_generator_mat_t g; generator_SF_seed_expand(&g,pk->G_0_seed); generator_mat_t G; 
  LESS_SHA3_INC_CTX h; LESS_SHA3_INC_INIT(&h); unsigned cnt=0; int valid=1;
  for(int i=0;i<T;i++){ normalized_IS_t V;
    if(f[i]==0){ monomial_t q; monomial_action_IS_t x; generator_rref_expand(&G,&g); monomial_mat_seed_expand_salt_rnd(&q,leaves+i*SEED_LENGTH_BYTES,sig->tree_salt,i); prepare_digest_input(&V,&x,&G,&q); }
    else { generator_mat_t P,R; monomial_action_IS_t act; uint8_t piv[sizeof(((struct{uint8_t a[N];}*)0)->a)]; memset(piv,0,sizeof piv);
      expand_to_rref(&P,pk->SF_G[f[i]-1]); expand_to_monom_action(&act,sig->monom_actions[cnt]); valid&=is_monom_action_valid(&act);
      memset(&R,0,sizeof R);
      apply_action_to_G(&R,&P,&act); generator_RREF(&R,piv); int k=0; for(int c=0;c<N;c++) if(!piv[c]) lex_minimize(&V,k++,&R,c); lex_sort_cols(&V); cnt++; }
    LESS_SHA3_INC_ABSORB(&h,(uint8_t*)&V,sizeof(normalized_IS_t)); }
  uint8_t d[HASH_DIGEST_LENGTH]; LESS_SHA3_INC_ABSORB(&h,(uint8_t*)m,mlen); LESS_SHA3_INC_ABSORB(&h,sig->tree_salt,HASH_DIGEST_LENGTH); LESS_SHA3_INC_FINALIZE(d,&h);
  int eq=1; for(int i=0;i<HASH_DIGEST_LENGTH;i++) eq&=d[i]==sig->digest[i];
#if defined(P_C02)||defined(P_C01)
  ai_prove(r==0||r==1,"verification returns only 0 or 1");
  ai_prove_eqv(r,valid&eq,"accepts exactly if every used response is valid and all bytes of H(commitment of every round | whole message | whole salt) equal the digest of the signature");
#endif
  ai_reach("verify");
}
