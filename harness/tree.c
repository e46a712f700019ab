// Seed tree: what is published and what is rebuilt, for every challenge at once (flags are symbolic).
#include <string.h>
#include "ai.h"
#include "LESS.h"
#include "seedtree.h"
#include "rng.h"
#include "hash_stubs.h"
#define S SEED_LENGTH_BYTES
#define ND NUM_NODES_OF_SEED_TREE
#define FIRST (NUM_LEAVES_OF_SEED_TREE-1)
void ai_req_generate_seed_tree_from_root(void){} void ai_req_seed_tree_path(void){} void ai_req_rebuild_seed_tree_leaves(void){}
void ai_main(void){
  unsigned char*root=ai_object(S,"root seed"),*salt=ai_object(HASH_DIGEST_LENGTH,"salt"),*idx=ai_object(T,"challenged flags");
  ai_fresh(root,S,"root",1,0,255,0); ai_fresh(salt,HASH_DIGEST_LENGTH,"salt",1,0,255,0); ai_fresh(idx,T,"challenged",1,0,1,0);
  ai_readonly(root,1); ai_readonly(salt,1); ai_readonly(idx,1);
#ifdef P_C08
  // each node below the root: the corresponding half of the expansion of exactly (whole salt, whole parent seed)
  unsigned char*out=ai_object(ND*S,"tree"),*spec=ai_object(ND*S,"specified tree");
  generate_seed_tree_from_root(out,root,salt); memcpy(spec,root,S);
  for(int i=0;i<FIRST;i++){ SHAKE_STATE_STRUCT st; xof_shake_init(&st,S*8); xof_shake_update(&st,salt,HASH_DIGEST_LENGTH); xof_shake_update(&st,spec+i*S,S); xof_shake_final(&st); xof_shake_extract(&st,spec+(2*i+1)*S,2*S); }
  for(int i=0;i<ND;i++) ai_prove_eq(out+i*S,spec+i*S,S,"a tree node is the expansion of the whole salt and its whole parent seed");
  ai_reach("nodes"); return;
#endif
  // need[i]: some challenged round lies below node i
  unsigned char need[ND]; for(int i=0;i<ND;i++) need[i]=0; for(int i=0;i<T;i++) need[FIRST+i]=idx[i];
  for(int i=FIRST-1;i>=0;i--) need[i]=need[2*i+1]|need[2*i+2];
  ai_assume(need[0]==1); // the challenge has w >= 1 nonzero entries (C19)
  unsigned char*tree=ai_object(ND*S,"signer tree"),*store=ai_object(2*ND*S,"published seeds"),*tree2=ai_object(ND*S,"rebuilt tree");
// (the capacity of the published-seed area is the business of C16)
#ifdef P_C09
  ai_fresh(tree,ND*S,"seed tree",1,0,255,0);
  unsigned n=seed_tree_path(tree,idx,store); (void)n;
  ai_prove_guarded(store,tree,S,need,ND,"a published seed must not cover a challenged round"); ai_reach("path");
#else
  generate_seed_tree_from_root(tree,root,salt); ai_readonly(tree,1);
  unsigned n=seed_tree_path(tree,idx,store); ai_readonly(store,1);
  ai_fresh(tree2,ND*S,"garbage",1,0,255,0);
  unsigned m=rebuild_seed_tree_leaves(tree2,idx,store,salt);
  ai_prove_eqv(n,m,"as many seeds consumed as published");
  for(int i=0;i<T;i++) if(idx[i]==0){ ai_prove_eq(tree2+(FIRST+i)*S,tree+(FIRST+i)*S,S,"rebuilt seed of an unchallenged round equals the signer's"); ai_reach("round"); }
#endif
}
