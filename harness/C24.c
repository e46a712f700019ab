// Control flow and addresses of the designated constant-time helpers must not depend on the data they process.
#include "ai.h"
#include "LESS.h"
#include "codes.h"
#include "fq_arith.h"
int timing_safe_memcmp(const unsigned char*a,const unsigned char*b,unsigned int len);
void ai_req_timing_safe_memcmp(void){} void ai_req_lex_minimize(void){}
static void memcmp_case(size_t n){ unsigned char*a=ai_object(n,"A"),*b=ai_object(n,"B"); ai_fresh(a,n,"a",1,0,255,AI_SECRET); ai_fresh(b,n,"b",1,0,255,AI_SECRET);
  ai_ct(1); int r=timing_safe_memcmp(a,b,n); ai_ct(0); (void)r; ai_reach("compare"); }
void ai_main(void){
  memcmp_case(HASH_DIGEST_LENGTH); memcmp_case(5);
  FQ_ELEM*x=ai_object(1,"X"); ai_fresh(x,1,"x",1,0,Q,AI_SECRET);
  ai_ct(1); FQ_ELEM y=fq_inv(*x); ai_ct(0); (void)y; ai_reach("invert");
  generator_mat_t*G=ai_object(sizeof*G,"G"); normalized_IS_t*V=ai_object(sizeof*V,"V"); ai_fresh(G,sizeof*G,"g",1,0,Q-1,AI_SECRET); ai_fresh(V,sizeof*V,"v",1,0,Q-1,0);
  uint64_t c=ai_u64("col",0,N-1),d=ai_u64("dst",0,N-K-1);
  ai_ct(1); lex_minimize(V,d,G,c); ai_ct(0); ai_reach("minimise");
}
