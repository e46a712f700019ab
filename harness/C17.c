// Both implementations in one module (symbols prefixed): the same inputs must have the same value-graph nodes as outputs.
#include <string.h>
#include "ai.h"
#include "LESS.h"
#include "seedtree.h"
#define D2(r,n,a) r ref_##n a; r opt_##n a;
D2(unsigned,size,(int)) D2(void,keygen,(void*,void*,uint64_t)) D2(uint64_t,sign,(const void*,const char*,uint64_t,void*,uint64_t)) D2(int,verify,(const void*,const char*,uint64_t,const void*))
D2(void,packA,(uint8_t*,const uint8_t*,const void*)) D2(void,unpackA,(uint8_t*,void*,const uint8_t*)) D2(void,packG,(uint8_t*,const uint8_t*,const uint8_t*)) D2(int,unpackG,(uint8_t*,const uint8_t*)) D2(void,expandG,(uint8_t*,const uint8_t*,const void*))
D2(void,tree,(uint8_t*,const uint8_t*,const uint8_t*)) D2(unsigned,path,(const uint8_t*,const uint8_t*,uint8_t*)) D2(unsigned,rebuild,(uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*))
D2(void,digest,(uint8_t*,uint8_t*,void*,const uint8_t*,const uint8_t*,const void*))
static void*in(size_t n,const char*w,int e,uint64_t lo,uint64_t hi){ void*p=ai_object(n,w); ai_fresh(p,n,w,e,lo,hi,0); ai_readonly(p,1); return p; }
#define EQ(n,len,msg) ai_prove_eq(n##1,n##2,len,"both implementations: " msg)
#define TWO(n,len) uint8_t*n##1=ai_object(len,#n " (reference)"),*n##2=ai_object(len,#n " (optimised)")
void ai_main(void){
  for(int i=0;i<=20;i++) ai_prove(ref_size(i)==opt_size(i),"both implementations use the same sizes and parameters");
#ifdef B_KEYGEN
  TWO(sk,sizeof(prikey_t)); TWO(pk,sizeof(pubkey_t)); uint64_t pos=ai_u64("rand.pos",0,1u<<30); ref_keygen(sk1,pk1,pos); opt_keygen(sk2,pk2,pos);
  EQ(sk,sizeof(prikey_t),"same secret key"); EQ(pk,sizeof(pubkey_t),"same public key"); ai_reach("keygen");
#endif
#ifdef B_SIGN
  void*sk=in(sizeof(prikey_t),"SK",1,0,255); uint64_t mlen=ai_u64("mlen",0,1ull<<40); char*m=in(mlen,"message",1,0,255); uint64_t pos=ai_u64("rand.pos",0,1u<<30);
  TWO(sig,sizeof(sign_t)); uint64_t a=ref_sign(sk,m,mlen,sig1,pos),b=opt_sign(sk,m,mlen,sig2,pos);
  const sign_t*x=(void*)sig1,*y=(void*)sig2;
  ai_prove_eqv(a,b,"both implementations: same number of published seeds"); ai_prove_eq(x->tree_salt,y->tree_salt,HASH_DIGEST_LENGTH,"both implementations: same salt"); ai_prove_eq(x->digest,y->digest,HASH_DIGEST_LENGTH,"both implementations: same digest");
  ai_prove_eq(x->monom_actions,y->monom_actions,sizeof x->monom_actions,"both implementations: same responses"); ai_prove_eq(x->seed_storage,y->seed_storage,a*SEED_LENGTH_BYTES,"both implementations: same published seeds"); ai_prove_eqv(x->seed_storage[a*SEED_LENGTH_BYTES],y->seed_storage[b*SEED_LENGTH_BYTES],"both implementations: same count byte"); ai_reach("sign");
#endif
#ifdef B_VERIFY
  void*pk=in(sizeof(pubkey_t),"PK",1,0,255),*sig=in(sizeof(sign_t),"signature",1,0,255); uint64_t mlen=ai_u64("mlen",0,1ull<<40); char*m=in(mlen,"message",1,0,255);
  ai_prove_eqv(ref_verify(pk,m,mlen,sig),opt_verify(pk,m,mlen,sig),"both implementations: same verdict"); ai_reach("verify");
#endif
#ifdef B_PACK
  { uint8_t*c=in(K,"coef",1,0,Q-1); void*p=in(K*sizeof(POSITION_T),"pos",sizeof(POSITION_T),0,N-1); TWO(z,MONO_ACTION_PACKEDBYTES); ref_packA(z1,c,p); opt_packA(z2,c,p); EQ(z,MONO_ACTION_PACKEDBYTES,"same packed response");
    uint8_t*b=in(MONO_ACTION_PACKEDBYTES,"response bytes",1,0,255); TWO(c,K); TWO(p,K*sizeof(POSITION_T)); ref_unpackA(c1,p1,b); opt_unpackA(c2,p2,b); EQ(c,K,"same unpacked coefficients"); EQ(p,K*sizeof(POSITION_T),"same unpacked positions"); ai_reach("action"); }
  { uint8_t*G=in(K*N,"G",1,0,Q-1),*f=ai_object(N,"pivots"); for(int i=0;i<N;i++) f[i]=PAT; TWO(z,RREF_MAT_PACKEDBYTES); ref_packG(z1,G,f); opt_packG(z2,G,f); EQ(z,RREF_MAT_PACKEDBYTES,"same packed matrix");
    ai_readonly(z1,1); ai_readonly(z2,1); TWO(H,K*N); int a=ref_unpackG(H1,z2),c=opt_unpackG(H2,z1); ai_prove(a==1&&c==1,"each implementation accepts what the other packed"); EQ(H,K*N,"same unpacked matrix");
    for(int t=0;t<3;t++){ // arbitrary bytes (also non-canonical entries) in two places; too few and too many pivots
      uint8_t*b=ai_object(RREF_MAT_PACKEDBYTES,"matrix bytes"); unsigned h=(N+7)/8; memset(b,0,RREF_MAT_PACKEDBYTES); memcpy(b,z1,h); if(t==0){ ai_fresh(b+h,9,"b",1,0,255,0); ai_fresh(b+RREF_MAT_PACKEDBYTES-9,9,"b",1,0,255,0); } else { for(int i=0;i<N;i++) if(f[i]==(t==1)){ b[i/8]^=1<<(i%8); break; } } ai_readonly(b,1);
      TWO(H,K*N); a=ref_unpackG(H1,b); c=opt_unpackG(H2,b); ai_prove_eqv(a,c,"both implementations: same acceptance of a packed matrix"); if(t) ai_prove(a==0,"a wrong number of pivots is rejected"); ai_reach("acceptance"); }
    ai_reach("matrix"); }
  { uint8_t*C=in(K*(N-K),"C",1,0,Q-1); POSITION_T*p=ai_object((N-K)*sizeof*p,"column positions"); int k=0; for(int i=0;i<N&&k<N-K;i++) if(!(PAT)) p[k++]=i; TWO(G,K*N); ref_expandG(G1,C,p); opt_expandG(G2,C,p); EQ(G,K*N,"same expanded matrix"); ai_reach("expand"); }
#endif
#ifdef B_TREE
  uint8_t*root=in(SEED_LENGTH_BYTES,"root",1,0,255),*salt=in(HASH_DIGEST_LENGTH,"salt",1,0,255),*idx=in(T,"challenged",1,0,1); unsigned sz=ref_size(7); TWO(t,sz); ref_tree(t1,root,salt); opt_tree(t2,root,salt); EQ(t,sz,"same seed tree");
  unsigned char need[NUM_NODES_OF_SEED_TREE]; int F=NUM_LEAVES_OF_SEED_TREE-1; for(int i=0;i<NUM_NODES_OF_SEED_TREE;i++) need[i]=0; for(int i=0;i<T;i++) need[F+i]=idx[i]; for(int i=F-1;i>=0;i--) need[i]=need[2*i+1]|need[2*i+2];
  ai_assume(need[0]==1); // at least one challenged round (C19)
#if DIR==1 // what the reference publishes is rebuilt by the optimised implementation
#define PUT ref_path
#define GET opt_rebuild
#else
#define PUT opt_path
#define GET ref_rebuild
#endif
  uint8_t*st=ai_object(2*sz,"published seeds"),*r=ai_object(sz,"rebuilt tree"); unsigned a=PUT(t1,idx,st); ai_readonly(st,1); ai_reach("path"); memset(r,0,sz);
  unsigned c=GET(r,idx,st,salt); ai_prove_eqv(a,c,"one implementation consumes as many seeds as the other published");
  for(int i=0;i<T;i++) if(idx[i]==0){ unsigned o=(F+i)*SEED_LENGTH_BYTES; ai_prove_eq(r+o,t1+o,SEED_LENGTH_BYTES,"seed rebuilt by one implementation from what the other published"); ai_reach("round"); }
#endif
#ifdef B_DIGEST
  uint8_t*G=in(K*N,"G",1,0,Q-1),*qc=in(N,"qc",1,1,Q-1); POSITION_T*qp=ai_object(N*sizeof(POSITION_T),"permutation"); for(int i=0;i<N;i++) qp[i]=(11*i+5)%N; TWO(V,ref_size(18)); TWO(c,K); TWO(p,K*sizeof(POSITION_T)); ref_digest(V1,c1,p1,G,qc,qp); opt_digest(V2,c2,p2,G,qc,qp);
  EQ(V,ref_size(18),"same commitment"); EQ(c,K,"same commitment coefficients"); EQ(p,K*sizeof(POSITION_T),"same commitment positions"); ai_reach("digest");
#endif
}
