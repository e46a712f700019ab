#include "ai.h"
#include "LESS.h"
#include "monomial_mat.h"
void ai_req_is_monom_action_valid(void){}
// arbitrary decoded response: any coefficient byte, any position value
void ai_main(void){
  monomial_action_IS_t *a=ai_object(sizeof *a,"action");
  ai_fresh(a->coefficients,K,"coef",1,0,255,0);
  ai_fresh(a->permutation,sizeof(POSITION_T)*K,"pos",sizeof(POSITION_T),0,(POSITION_T)~(POSITION_T)0,0);
  ai_readonly(a,1);
  unsigned ok=1;
  for(int i=0;i<K;i++) ok&=(a->coefficients[i]>=1)&(a->coefficients[i]<=Q-1)&(a->permutation[i]<N);
  for(int i=0;i<K;i++) for(int j=0;j<i;j++) ok&=(a->permutation[i]!=a->permutation[j]);
  unsigned r=is_monom_action_valid(a)!=0;
  ai_prove_eqv(r,ok,"validity check accepts exactly: coefficients 1..126, positions < N, positions pairwise distinct");
  ai_reach("compared");
}
