// Field arithmetic is exact and canonical: scalar functions for all operands, matrix/monomial products for every position.
#include <string.h>
#include "ai.h"
#include "LESS.h"
#include "codes.h"
#include "monomial_mat.h"
#include "fq_arith.h"
#ifdef AI_OPT
#include <immintrin.h>
#include "macro.h"
#endif
void ai_req_generator_monomial_mul(void){} void ai_req_apply_action_to_G(void){} void ai_req_lex_minimize(void){} void ai_req_monomial_mat_mul(void){} void ai_req_monomial_mat_inv(void){} void ai_req_monomial_compose_action(void){}
#define ROWS 5 /* the rows of a matrix carry ROWS different symbolic contents in rotation */
static unsigned mulq(unsigned a,unsigned b){ return (a*b)%Q; }
static generator_mat_t*matrix(const char*n){ generator_mat_t*G=ai_object(sizeof*G,n); memset(G,0,sizeof*G); for(int r=0;r<ROWS;r++) ai_fresh(G->values[r],N,"entry",1,0,Q-1,0); for(int r=ROWS;r<K;r++) memcpy(G->values[r],G->values[r-ROWS],N); ai_readonly(G,1); return G; }
static unsigned perm(unsigned i){ return (i+5)%N; }
void ai_main(void){
#ifdef P_SCALAR
  { uint64_t a=ai_u64("a",0,Q-1),b=ai_u64("b",0,Q-1);
    ai_prove(fq_red((FQ_DOUBLEPREC)(a*b))==(a*b)%Q,"fq_red of a product is the residue");
    uint64_t x=ai_u64("x",0,65535-Q); ai_prove(fq_red((FQ_DOUBLEPREC)x)==x%Q,"fq_red is the residue");
#ifdef AI_OPT
    ai_prove(br_red(br_mul(a,b))==(a*b)%Q,"br_red(br_mul(a,b)) is the residue of the product");
    ai_prove(br_red16((FQ_DOUBLEPREC)(a*b))==(a*b)%Q,"br_red16 of a product is the residue");
#endif
    uint64_t v=ai_u64("v",0,Q-1); unsigned w=fq_inv(v); ai_prove(w<Q,"the inverse is canonical"); ai_prove(v==0||(v*w)%Q==1,"a nonzero element times its inverse is one"); ai_prove(v!=0||w==0,"the inverse of zero is defined as zero"); }
#if defined(AI_OPT)&&defined(W_RED127_)
  { vec256_t x,t,c01,c7f; uint8_t*in=ai_object(32,"lanes"),*out=ai_object(32,"reduced lanes"); ai_fresh(in,32,"lane",1,0,2*Q-2,0); (void)t;
    vset8(c01,1); vset8(c7f,0x7f); x=_mm256_loadu_si256((const __m256i*)in); W_RED127_(x); _mm256_storeu_si256((__m256i*)out,x);
    for(int i=0;i<32;i++) ai_prove(out[i]==in[i]%Q,"vector reduction of a sum of two elements is the residue"); ai_reach("lanes"); }
#endif
  ai_reach("scalar");
#endif
#ifdef P_ACT
  { monomial_t*A=ai_object(sizeof*A,"A"),*B=ai_object(sizeof*B,"B"),*R=ai_object(sizeof*R,"R"); memset(A,0,sizeof*A); memset(B,0,sizeof*B); ai_fresh(A->coefficients,N,"a",1,1,Q-1,0); ai_fresh(B->coefficients,N,"b",1,1,Q-1,0);
    for(int i=0;i<N;i++){ A->permutation[i]=perm(i); B->permutation[i]=N-1-i; } ai_readonly(A,1); ai_readonly(B,1);
    monomial_mat_mul(R,A,B); for(int i=0;i<N;i++){ ai_prove(R->coefficients[i]==mulq(A->coefficients[i],B->coefficients[perm(i)]),"product coefficient"); ai_prove(R->permutation[i]==N-1-perm(i),"product position"); } ai_reach("product");
    monomial_mat_inv(R,A); for(int i=0;i<N;i++){ unsigned c=R->coefficients[perm(i)]; ai_prove(c<Q&&(c*A->coefficients[i])%Q==1,"inverse coefficient"); ai_prove(R->permutation[perm(i)]==i,"inverse position"); } ai_reach("inverse");
    monomial_action_IS_t*I=ai_object(sizeof*I,"IS"),*O=ai_object(sizeof*O,"out"); memset(I,0,sizeof*I); ai_fresh(I->coefficients,K,"c",1,1,Q-1,0); for(int i=0;i<K;i++) I->permutation[i]=N-1-i; ai_readonly(I,1);
    monomial_compose_action(O,A,I); for(int i=0;i<K;i++){ unsigned s=(2*N-1-i-5)%N; /* the column of A sent to N-1-i */ ai_prove(O->coefficients[i]==mulq(I->coefficients[i],A->coefficients[s]),"composed coefficient"); ai_prove(O->permutation[i]==s,"composed position"); } ai_reach("compose");
    generator_mat_t*G=matrix("G"),*H=ai_object(sizeof*H,"H"); memset(H,0,sizeof*H);
    for(int x=0;x<ROWS;x++) ai_reach("rows");
    apply_action_to_G(H,G,I);
    for(int r=0;r<K;r++) for(int i=0;i<K;i++) ai_prove(H->values[r][i]==mulq(G->values[r][N-1-i],I->coefficients[i]),"entry of a picked column");
    for(int r=0;r<K;r++) for(int i=K;i<N;i++) ai_prove(H->values[r][i]==G->values[r][i-K],"entry of a column that is not picked"); ai_reach("apply"); }
#endif
#ifdef P_MUL
  { generator_mat_t*G=matrix("G"),*H=ai_object(sizeof*H,"H"); monomial_t*A=ai_object(sizeof*A,"A"); memset(H,0,sizeof*H); memset(A,0,sizeof*A); ai_fresh(A->coefficients,N,"a",1,0,Q-1,0); for(int i=0;i<N;i++) A->permutation[i]=perm(i); ai_readonly(A,1);
    generator_monomial_mul(H,G,A);
    for(int r=0;r<K;r++) for(int i=0;i<N;i++) ai_prove(H->values[r][perm(i)]==mulq(G->values[r][i],A->coefficients[i]),"entry of the product"); ai_reach("product"); }
#endif
#ifdef P_MIN
  static const int first[]={0,1,K/2,K-1};
  for(int t=0;t<4;t++){ int j=first[t]; unsigned col=t==0?0:t==1?N-1:K+t; generator_mat_t*G=ai_object(sizeof*G,"G"); memset(G,0,sizeof*G); FQ_ELEM e[ROWS]; ai_fresh(e,ROWS,"entry",1,0,Q-1,0); FQ_ELEM p=ai_u64("leading entry",1,Q-1);
    for(int r=j;r<K;r++) G->values[r][col]=r==j?p:e[r%ROWS]; ai_readonly(G,1); normalized_IS_t*V=ai_object(sizeof*V,"V"); unsigned d=t==0?0:t==1?N-K-1:t; unsigned inv=fq_inv(p);
    lex_minimize(V,d,G,col); for(int r=0;r<K;r++) ai_prove(V->values[r][d]==mulq(G->values[r][col],inv),"normalised entry"); ai_prove(V->values[j][d]==1,"the leading entry becomes one"); ai_reach("minimise"); }
#endif
}
