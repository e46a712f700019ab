// Matrix, monomial and tree operations as uninterpreted functions of their complete inputs.
#pragma once
#include "ai.h"
#include "LESS.h"
#include "seedtree.h"
#include "rng.h"
#include "utils.h"
#include "codes.h"
#include "monomial_mat.h"
#include "sha3.h"
#include "hash_stubs.h"
#define UF(n) ai_uf_begin(n)
#define IN(p,n) ai_uf_in(p,n)
#define MONO_IN(q) (IN((q)->coefficients,N),IN((q)->permutation,N*sizeof(POSITION_T)))
#define MONO_OUT(q) (ai_uf_out((q)->coefficients,N,1,1,Q-1,"coef"),ai_uf_out((q)->permutation,N*sizeof(POSITION_T),sizeof(POSITION_T),0,N-1,"perm"))
#define ACT_IN(q) (IN((q)->coefficients,K),IN((q)->permutation,K*sizeof(POSITION_T)))
#define ACT_OUT(q,clo,chi,phi) (ai_uf_out((q)->coefficients,K,1,clo,chi,"coef"),ai_uf_out((q)->permutation,K*sizeof(POSITION_T),sizeof(POSITION_T),0,phi,"perm"))
#define PMAX ((POSITION_T)~(POSITION_T)0)
#ifdef P_C17 // the two implementations pad their matrices differently: the first row (without padding) stands for the matrix (whole matrices: C01, C02, C25)
#define GIN(g) IN((g)->values[0],N)
#define GOUT(g) ai_uf_out((g)->values[0],N,1,0,Q-1,"G")
#define CIN(c) (IN((c)->values[0],N-K),IN((c)->column_pos,(N-K)*sizeof(POSITION_T)))
#define COUT(c) (ai_uf_out((c)->values[0],N-K,1,0,Q-1,"C"),ai_uf_out((c)->column_pos,(N-K)*sizeof(POSITION_T),sizeof(POSITION_T),0,N-1,"pos"))
#else
#define GIN(g) IN(g,sizeof*(g))
#define GOUT(g) ai_uf_out(g,sizeof*(g),1,0,Q-1,"G")
#define CIN(c) IN(c,sizeof*(c))
#define COUT(c) ai_uf_out(c,sizeof*(c),1,0,255,"G")
#endif
void ai_stub_generator_SF_seed_expand(rref_generator_mat_t*r,const unsigned char*seed){ UF("expandG"); IN(seed,SEED_LENGTH_BYTES); COUT(r); }
void ai_stub_generator_rref_expand(generator_mat_t*f,const rref_generator_mat_t*c){ UF("rref_full"); CIN(c); GOUT(f); }
void ai_stub_monomial_mat_seed_expand_prikey(monomial_t*r,const unsigned char*seed){ UF("expandSecret"); IN(seed,PRIVATE_KEY_SEED_LENGTH_BYTES); MONO_OUT(r); }
#ifdef P_LEAF // round i must use leaf i of the tree last produced, whole, with the salt of that tree
#define FIRST_LEAF (NUM_LEAVES_OF_SEED_TREE-1)
static unsigned char gh_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],gh_salt[HASH_DIGEST_LENGTH],gh_f[T];
#define LEAF_TREE(t,s) (memcpy(gh_tree,t,sizeof gh_tree),memcpy(gh_salt,s,sizeof gh_salt))
#define LEAF_USE(seed,salt,i) (ai_prove_eq(seed,gh_tree+(FIRST_LEAF+(i))*SEED_LENGTH_BYTES,SEED_LENGTH_BYTES,"a round uses exactly its own leaf of the seed tree"),ai_prove_eq(salt,gh_salt,HASH_DIGEST_LENGTH,"a round uses the salt of the seed tree"))
static const sign_t*gh_sig;
#define LEAF_STORE(st,salt) if(gh_sig){ ai_prove_eq(st,gh_sig->seed_storage,SEED_TREE_MAX_PUBLISHED_BYTES,"the tree is rebuilt from the seeds of the signature"); ai_prove_eq(salt,gh_sig->tree_salt,HASH_DIGEST_LENGTH,"the tree is rebuilt with the salt of the signature"); }
#define LEAF_CH(f) memcpy(gh_f,f,T)
#define LEAF_IDX(idx) for(int j_=0;j_<T;j_++) ai_prove_eqv((idx)[j_]!=0,gh_f[j_]!=0,"the tree functions get exactly the set of challenged rounds")
#define LEAF_PATH(t) ai_prove_eq(t,gh_tree,sizeof gh_tree,"seeds are published from the tree of this signature")
#else
#define LEAF_TREE(t,s)
#define LEAF_USE(seed,salt,i)
#define LEAF_CH(f)
#define LEAF_STORE(st,salt)
#define LEAF_IDX(idx)
#define LEAF_PATH(t)
#endif
void ai_stub_monomial_mat_seed_expand_salt_rnd(monomial_t*r,const unsigned char*seed,const unsigned char*salt,const uint16_t i){ LEAF_USE(seed,salt,i); UF("expandEphemeral"); IN(seed,SEED_LENGTH_BYTES); IN(salt,HASH_DIGEST_LENGTH); ai_uf_val(i); MONO_OUT(r); }
void ai_stub_monomial_mat_inv(monomial_t*r,const monomial_t*a){ UF("mono_inv"); MONO_IN(a); MONO_OUT(r); }
void ai_stub_monomial_mat_mul(monomial_t*r,const monomial_t*a,const monomial_t*b){ UF("mono_mul"); MONO_IN(a); MONO_IN(b); MONO_OUT(r); }
void ai_stub_monomial_compose_action(monomial_action_IS_t*o,const monomial_t*q,const monomial_action_IS_t*in){ UF("compose"); MONO_IN(q); ACT_IN(in); ACT_OUT(o,1,Q-1,N-1); }
void ai_stub_generator_monomial_mul(generator_mat_t*r,const generator_mat_t*g,const monomial_t*q){ UF("GxQ"); GIN(g); MONO_IN(q); GOUT(r); }
void ai_stub_prepare_digest_input(normalized_IS_t*V,monomial_action_IS_t*qb,const generator_mat_t*G,const monomial_t*q){ UF("commit"); GIN(G); MONO_IN(q); ai_uf_out(V,sizeof*V,1,0,Q-1,"V"); ACT_OUT(qb,1,Q-1,N-1); }
void ai_stub_generate_seed_tree_from_root(unsigned char*tree,const unsigned char*root,const unsigned char*salt){ UF("tree"); IN(root,SEED_LENGTH_BYTES); IN(salt,HASH_DIGEST_LENGTH); ai_uf_out(tree,NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES,1,0,255,"nodes"); LEAF_TREE(tree,salt); }
uint32_t ai_stub_seed_tree_path(const unsigned char*tree,const unsigned char*idx,unsigned char*st){ LEAF_PATH(tree); LEAF_IDX(idx); UF("path"); IN(tree,NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES); IN(idx,T); uint32_t n=ai_uf_ret(16,0,MAX_PUBLISHED_SEEDS); ai_uf_out(st,(size_t)n*SEED_LENGTH_BYTES,1,0,255,"seeds"); return n; }
uint32_t ai_stub_rebuild_seed_tree_leaves(unsigned char*tree,const unsigned char*idx,const unsigned char*st,const unsigned char*salt){ UF("rebuild"); IN(idx,T); IN(st,SEED_TREE_MAX_PUBLISHED_BYTES); IN(salt,HASH_DIGEST_LENGTH); ai_uf_out(tree,NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES,1,0,255,"nodes"); LEAF_IDX(idx); LEAF_STORE(st,salt) LEAF_TREE(tree,salt); return ai_uf_ret(16,0,MAX_PUBLISHED_SEEDS); }
void ai_stub_expand_digest_to_fixed_weight(uint8_t*f,const uint8_t*d){ UF("challenge"); IN(f,T); IN(d,HASH_DIGEST_LENGTH); ai_uf_out(f,T,1,0,NUM_KEYPAIRS-1,"b"); ai_assume_weight(f,T,W); LEAF_CH(f); }
void ai_stub_compress_monom_action(uint8_t*b,const monomial_action_IS_t*a){ UF("packAction"); ACT_IN(a); ai_uf_out(b,MONO_ACTION_PACKEDBYTES,1,0,255,"bytes"); }
void ai_stub_expand_to_monom_action(monomial_action_IS_t*a,const uint8_t*b){ UF("unpackAction"); IN(b,MONO_ACTION_PACKEDBYTES); ACT_OUT(a,0,127,PMAX); }
void ai_stub_compress_rref(uint8_t*b,const generator_mat_t*G,const uint8_t*piv){ UF("packG"); GIN(G); IN(piv,N); ai_uf_out(b,RREF_MAT_PACKEDBYTES,1,0,255,"bytes"); }
#ifndef BEFORE_ACTION
#define BEFORE_ACTION(g,a)
#endif
void ai_stub_apply_action_to_G(generator_mat_t*r,const generator_mat_t*g,const monomial_action_IS_t*a){ BEFORE_ACTION(g,a) UF("GxAction"); GIN(g); ACT_IN(a); GOUT(r); }
#ifndef RREF_OK
#define RREF_OK ai_uf_ret(1,0,1)
#define EXPAND_OK ai_uf_ret(1,0,1)
#define VALID_OK ai_uf_ret(1,0,1)
#endif
int ai_stub_expand_to_rref(generator_mat_t*f,const uint8_t*b){ UF("unpackG"); IN(b,RREF_MAT_PACKEDBYTES); GOUT(f); return EXPAND_OK; }
int ai_stub_is_monom_action_valid(const monomial_action_IS_t*a){ UF("validAction"); ACT_IN(a); return VALID_OK; }
#ifndef PIVPAT
int ai_stub_generator_RREF(generator_mat_t*G,uint8_t*piv){ UF("rref"); GIN(G); IN(piv,N); GOUT(G); ai_uf_out(piv,N,1,0,1,"piv"); return RREF_OK; }
#else
int ai_stub_generator_RREF(generator_mat_t*G,uint8_t*piv){ UF("rref"); GIN(G); IN(piv,N); GOUT(G); int r=RREF_OK; for(int i=0;i<N;i++) piv[i]=PIVPAT(i); return r; }
#endif
// a normalised column is represented by a token in row 0; sorting turns a complete row of tokens into the commitment
void ai_stub_lex_minimize(normalized_IS_t*V,const POSITION_T dst,const generator_mat_t*G,const POSITION_T col){ UF("normColumn"); GIN(G); ai_uf_val(col); ai_uf_out(&V->values[0][dst],1,1,0,Q-1,"col"); }
void ai_stub_lex_sort_cols(normalized_IS_t*V){ UF("sortCols"); IN(V->values[0],N-K); ai_uf_out(V,sizeof*V,1,0,Q-1,"V"); }
void ai_req_LESS_keygen(void){} void ai_req_LESS_sign(void){} void ai_req_LESS_verify(void){}
