// KeccakF1600_StatePermute against the FIPS 202 definition, for every state.
#include "ai.h"
#include "keccakf1600.h"
#include "keccak_model.h"
void ai_req_KeccakF1600_StatePermute(void){}
void ai_main(void){
  uint64_t*s=ai_object(200,"state"); uint64_t m[25];
  ai_fresh(s,200,"lane",8,0,~0ull,0); memcpy(m,s,200);
  KeccakF1600_StatePermute(s); model_keccakf(m);
  ai_prove_eq(s,m,200,"the permutation is Keccak-f[1600] with 24 rounds"); ai_reach("permutation");
}
