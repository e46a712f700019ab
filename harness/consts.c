// Compile-time constants of one configuration, evaluated by the compiler's constant evaluator.
#include <stddef.h>
#include <stdint.h>
#include "LESS.h"
#include "seedtree.h"
#include "codes.h"
#include "monomial_mat.h"
#include "sha3.h"
#include "api.h"
#define C(n,e) const unsigned long long c_##n=(unsigned long long)(e);
C(N,N) C(K,K) C(Q,Q) C(T,T) C(W,W) C(NK,NUM_KEYPAIRS) C(SEED,SEED_LENGTH_BYTES) C(HASH,HASH_DIGEST_LENGTH) C(PRIV,PRIVATE_KEY_SEED_LENGTH_BYTES)
C(MAXPUBB,SEED_TREE_MAX_PUBLISHED_BYTES) C(MAXPUB,MAX_PUBLISHED_SEEDS) C(LEAVES,NUM_LEAVES_OF_SEED_TREE) C(NODES,NUM_NODES_OF_SEED_TREE)
C(MASKQ,MASK_Q) C(MASKN,MASK_N) C(RREFPB,RREF_MAT_PACKEDBYTES) C(MONOPB,MONO_ACTION_PACKEDBYTES)
C(bitsN,BITS_TO_REPRESENT(N)) C(bitsNm,BITS_TO_REPRESENT(N-1)) C(bitsQm,BITS_TO_REPRESENT(Q-1)) C(bitsQ,BITS_TO_REPRESENT(Q)) C(bitsTm,BITS_TO_REPRESENT(T-1)) C(bitsNKm,BITS_TO_REPRESENT(NUM_KEYPAIRS-1))
C(szpos,sizeof(POSITION_T)) C(szel,sizeof(FQ_ELEM)) C(szdb,sizeof(FQ_DOUBLEPREC)) C(sztr,sizeof(FQ_TRIPLEPREC))
C(posmax,(POSITION_T)~(POSITION_T)0)
C(szpk,sizeof(pubkey_t)) C(szsk,sizeof(prikey_t)) C(szsig,sizeof(sign_t)) C(pk_g0,offsetof(pubkey_t,G_0_seed)) C(pk_sf,offsetof(pubkey_t,SF_G)) C(pk_sfsz,sizeof(((pubkey_t*)0)->SF_G))
C(sk_seed,offsetof(prikey_t,compressed_sk)) C(sk_g0,offsetof(prikey_t,G_0_seed)) C(sk_seedsz,sizeof(((prikey_t*)0)->compressed_sk)) C(pk_g0sz,sizeof(((pubkey_t*)0)->G_0_seed)) C(sk_g0sz,sizeof(((prikey_t*)0)->G_0_seed))
C(sg_salt,offsetof(sign_t,tree_salt)) C(sg_act,offsetof(sign_t,monom_actions)) C(sg_dig,offsetof(sign_t,digest)) C(sg_seed,offsetof(sign_t,seed_storage))
C(sg_saltsz,sizeof(((sign_t*)0)->tree_salt)) C(sg_actsz,sizeof(((sign_t*)0)->monom_actions)) C(sg_actrow,sizeof(((sign_t*)0)->monom_actions[0])) C(sg_digsz,sizeof(((sign_t*)0)->digest)) C(sg_seedsz,sizeof(((sign_t*)0)->seed_storage))
C(len0,LESS_CRYPTO_BYTES(0u)) C(len1,LESS_CRYPTO_BYTES(1u)) C(lenM,LESS_CRYPTO_BYTES(MAX_PUBLISHED_SEEDS)) C(lenmax,LESS_CRYPTO_MAX_BYTES)
C(apipk,CRYPTO_PUBLICKEYBYTES) C(apisk,CRYPTO_SECRETKEYBYTES) C(apisig,CRYPTO_BYTES)
C(V_rows,sizeof(((normalized_IS_t*)0)->values)/sizeof(((normalized_IS_t*)0)->values[0])) C(V_rowsz,sizeof(((normalized_IS_t*)0)->values[0])) C(szV,sizeof(normalized_IS_t))
C(G_rows,sizeof(((generator_mat_t*)0)->values)/sizeof(((generator_mat_t*)0)->values[0])) C(G_rowsz,sizeof(((generator_mat_t*)0)->values[0]))
C(R_rows,sizeof(((rref_generator_mat_t*)0)->values)/sizeof(((rref_generator_mat_t*)0)->values[0])) C(R_rowsz,sizeof(((rref_generator_mat_t*)0)->values[0])) C(R_pos,sizeof(((rref_generator_mat_t*)0)->column_pos))
C(m_coef,sizeof(((monomial_t*)0)->coefficients)) C(m_perm,sizeof(((monomial_t*)0)->permutation)) C(a_coef,sizeof(((monomial_action_IS_t*)0)->coefficients)) C(a_perm,sizeof(((monomial_action_IS_t*)0)->permutation))
#ifdef N_pad
C(Npad,N_pad) C(Kpad,K_pad) C(NKpad,N_K_pad)
#else
C(Npad,N) C(Kpad,K) C(NKpad,(N-K))
#endif
C(shake,_Generic((SHAKE_STATE_STRUCT*)0, shake128incctx*:128, shake256incctx*:256, default:0)) C(sha,_Generic((LESS_SHA3_INC_CTX*)0, sha3_256incctx*:256, sha3_384incctx*:384, sha3_512incctx*:512, default:0))
