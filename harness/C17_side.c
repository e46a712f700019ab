// One implementation's side of the comparison; compiled for each implementation with -DSIDE=ref_/opt_.
#include <string.h>
#define P_C17
#define RREF_OK 1
#define EXPAND_OK 1
#define VALID_OK ai_uf_ret(1,0,1)
#define PIVPAT(i) ((i)%2)
#ifdef B_UF
#include "less_uf.h"
#else
#include "ai.h"
#include "LESS.h"
#include "seedtree.h"
#include "rng.h"
#include "codes.h"
#include "monomial_mat.h"
#include "hash_stubs.h"
#endif
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#define S(n) CAT(SIDE,n)
unsigned S(size)(int w){ switch(w){ case 0: return sizeof(pubkey_t); case 1: return sizeof(prikey_t); case 2: return sizeof(sign_t); case 3: return MONO_ACTION_PACKEDBYTES; case 4: return RREF_MAT_PACKEDBYTES; case 5: return sizeof(POSITION_T);
  case 6: return SEED_TREE_MAX_PUBLISHED_BYTES; case 7: return NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES; case 8: return HASH_DIGEST_LENGTH; case 9: return SEED_LENGTH_BYTES; case 10: return LESS_CRYPTO_BYTES(1); case 11: return LESS_CRYPTO_BYTES(2);
  case 12: return N; case 13: return K; case 14: return T; case 15: return W; case 16: return NUM_KEYPAIRS; case 17: return Q; case 18: return sizeof(normalized_IS_t); case 19: return NUM_LEAVES_OF_SEED_TREE; case 20: return PRIVATE_KEY_SEED_LENGTH_BYTES; default: return 0; } }
#ifdef B_UF
void S(keygen)(void*sk,void*pk,uint64_t pos){ ai_sponge_seed(&platform_csprng_state,sizeof platform_csprng_state,XOFNAME "/system",pos); LESS_keygen(sk,pk); }
uint64_t S(sign)(const void*sk,const char*m,uint64_t mlen,void*sig,uint64_t pos){ ai_sponge_seed(&platform_csprng_state,sizeof platform_csprng_state,XOFNAME "/system",pos); return LESS_sign(sk,m,mlen,sig); }
int S(verify)(const void*pk,const char*m,uint64_t mlen,const void*sig){ return LESS_verify(pk,m,mlen,sig); }
#else
void S(packA)(uint8_t*z,const uint8_t*coef,const void*pos){ monomial_action_IS_t a; memset(&a,0,sizeof a); memcpy(a.coefficients,coef,K); memcpy(a.permutation,pos,K*sizeof(POSITION_T)); compress_monom_action(z,&a); }
void S(unpackA)(uint8_t*coef,void*pos,const uint8_t*z){ monomial_action_IS_t a; memset(&a,0,sizeof a); expand_to_monom_action(&a,z); memcpy(coef,a.coefficients,K); memcpy(pos,a.permutation,K*sizeof(POSITION_T)); }
void S(packG)(uint8_t*z,const uint8_t*G,const uint8_t*piv){ generator_mat_t g; uint8_t f[sizeof g.values[0]]; memset(&g,0,sizeof g); memset(f,0,sizeof f); memcpy(f,piv,N); for(int r=0;r<K;r++) memcpy(g.values[r],G+r*N,N); compress_rref(z,&g,f); }
int S(unpackG)(uint8_t*G,const uint8_t*z){ generator_mat_t g; memset(&g,0,sizeof g); int r=expand_to_rref(&g,z); for(int i=0;i<K;i++) memcpy(G+i*N,g.values[i],N); return r; }
void S(expandG)(uint8_t*G,const uint8_t*C,const void*pos){ generator_mat_t g; rref_generator_mat_t c; memset(&g,0,sizeof g); memset(&c,0,sizeof c); for(int i=0;i<K;i++) memcpy(c.values[i],C+i*(N-K),N-K); memcpy(c.column_pos,pos,(N-K)*sizeof(POSITION_T));
  generator_rref_expand(&g,&c); for(int i=0;i<K;i++) memcpy(G+i*N,g.values[i],N); }
void S(tree)(uint8_t*t,const uint8_t*root,const uint8_t*salt){ generate_seed_tree_from_root(t,root,salt); }
unsigned S(path)(const uint8_t*t,const uint8_t*idx,uint8_t*st){ return seed_tree_path(t,idx,st); }
unsigned S(rebuild)(uint8_t*t,const uint8_t*idx,const uint8_t*st,const uint8_t*salt){ return rebuild_seed_tree_leaves(t,idx,st,salt); }
void S(digest)(uint8_t*V,uint8_t*coef,void*pos,const uint8_t*G,const uint8_t*qc,const void*qp){ generator_mat_t g; monomial_t q; normalized_IS_t v; monomial_action_IS_t a; memset(&g,0,sizeof g); memset(&q,0,sizeof q); memset(&v,0,sizeof v); memset(&a,0,sizeof a);
  for(int i=0;i<K;i++) memcpy(g.values[i],G+i*N,N); memcpy(q.coefficients,qc,N); memcpy(q.permutation,qp,N*sizeof(POSITION_T)); prepare_digest_input(&v,&a,&g,&q); memcpy(V,&v,sizeof v); memcpy(coef,a.coefficients,K); memcpy(pos,a.permutation,K*sizeof(POSITION_T)); }
#ifdef B_DIGEST
#define IN(p,n) ai_uf_in(p,n)
void ai_stub_generator_monomial_mul(generator_mat_t*r,const generator_mat_t*g,const monomial_t*q){ ai_uf_begin("GxQ"); for(int i=0;i<K;i++) IN(g->values[i],N); IN(q->coefficients,N); IN(q->permutation,N*sizeof(POSITION_T)); for(int i=0;i<K;i++) ai_uf_out(r->values[i],N,1,0,Q-1,"G"); }
int ai_stub_generator_RREF(generator_mat_t*G,uint8_t*piv){ ai_uf_begin("rref"); for(int i=0;i<K;i++) IN(G->values[i],N); IN(piv,N); for(int i=0;i<K;i++) ai_uf_out(G->values[i],N,1,0,Q-1,"G"); for(int i=0;i<N;i++) piv[i]=PIV; return 1; }
void ai_stub_lex_minimize(normalized_IS_t*V,const POSITION_T dst,const generator_mat_t*G,const POSITION_T col){ ai_uf_begin("normColumn"); for(int i=0;i<K;i++) IN(G->values[i],N); ai_uf_val(col); ai_uf_out(&V->values[0][dst],1,1,0,Q-1,"col"); }
void ai_stub_lex_sort_cols(normalized_IS_t*V){ ai_uf_begin("sortCols"); IN(V->values[0],N-K); ai_uf_out(V,sizeof*V,1,0,Q-1,"V"); }
#endif
#endif
