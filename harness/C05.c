#include "ai.h"
#include "LESS.h"
#include "monomial_mat.h"
void ai_req_compress_monom_action(void){} void ai_req_expand_to_monom_action(void){}
// every monomial action with in-range entries, written into a buffer of exactly one response slot
void ai_main(void){
  monomial_action_IS_t *a=ai_object(sizeof *a,"action"), *b=ai_object(sizeof *b,"decoded");
  uint8_t *buf=ai_object(MONO_ACTION_PACKEDBYTES,"slot");
  ai_fresh(a->coefficients,sizeof a->coefficients,"coef",1,0,Q-1,0);
  for(int i=0;i<K;i++){}
  ai_fresh(a->permutation,sizeof(POSITION_T)*K,"pos",sizeof(POSITION_T),0,N-1,0);
  ai_readonly(a,1);
  compress_monom_action(buf,a);
  ai_prove_init(buf,MONO_ACTION_PACKEDBYTES,"encoded response slot");
  ai_readonly(buf,1);
  expand_to_monom_action(b,buf);
  ai_prove_eq(a->coefficients,b->coefficients,K,"decoded coefficients");
  ai_prove_eq(a->permutation,b->permutation,sizeof(POSITION_T)*K,"decoded positions");
  ai_reach("roundtrip");
}
