// Packing and unpacking of a public matrix: arbitrary entries, pivot columns in pattern PAT.
#include <string.h>
#include "ai.h"
#include "LESS.h"
#include "codes.h"
void ai_req_compress_rref(void){} void ai_req_expand_to_rref(void){}
#ifdef AI_OPT
#define NF N_pad
#else
#define NF N
#endif
static void pattern(uint8_t*f,int pat){ unsigned x=12345,c=0;
  for(int i=0;i<N;i++) f[i]=0;
  switch(pat){
  case 0: for(int i=0;i<K;i++) f[i]=1; break;                       // leading
  case 1: for(int i=N-K;i<N;i++) f[i]=1; break;                     // trailing
  case 2: for(int i=0;i<K;i++) f[2*i]=1; break;                     // interleaved
  case 3: for(int i=0;i<K-1;i++) f[i]=1; f[N-1]=1; break;           // last pivot displaced to the end
  case 4: for(int i=0;i<K+1;i++) f[i]=i!=0; break;                  // no pivot in column 0
  default: for(int i=0;i<N;i++){ x=x*1103515245u+12345u; unsigned left=N-i,need=K-c; if((x>>16)%left<need){ f[i]=1; c++; } } } }
static void run(int pat){
  generator_mat_t*G=ai_object(sizeof*G,"matrix"),*H=ai_object(sizeof*H,"decoded"); uint8_t*f=ai_object(NF,"pivot flags"); memset(f,0,NF); pattern(f,pat); memset(G,0,sizeof*G);
  for(int r=0;r<K;r++){ ai_fresh(G->values[r],N,"entry",1,0,Q-1,0); int p=0; for(int c=0;c<N;c++) if(f[c]){ G->values[r][c]=(p==r); p++; } }
  ai_readonly(G,1); ai_readonly(f,1);
  uint8_t*z=ai_object(RREF_MAT_PACKEDBYTES,"public key slot");
  compress_rref(z,G,f); ai_prove_init(z,RREF_MAT_PACKEDBYTES,"every byte of the slot is defined"); ai_readonly(z,1);
  int ok=expand_to_rref(H,z); ai_prove(ok==1,"an encoded matrix is accepted");
  for(int r=0;r<K;r++) ai_prove_eq(H->values[r],G->values[r],N,"decoded row equals the encoded one"); ai_reach("roundtrip"); }
void ai_main(void){ run(PAT); }
