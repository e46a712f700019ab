// crypto_sign / crypto_sign_open for arbitrary buffers and lengths. M_OPEN: opener, M_SIGN: signer. LESS_sign / LESS_verify are replaced by their contracts.
#include <string.h>
#include "ai.h"
#include "LESS.h"
#include "parameters.h"
int crypto_sign(unsigned char*sm,unsigned long long*smlen,const unsigned char*m,unsigned long long mlen,const unsigned char*sk);
int crypto_sign_open(unsigned char*m,unsigned long long*mlen,const unsigned char*sm,unsigned long long smlen,const unsigned char*pk);
void ai_req_crypto_sign(void){} void ai_req_crypto_sign_open(void){}
#define FIXED ((uint64_t)(2*HASH_DIGEST_LENGTH+W*MONO_ACTION_PACKEDBYTES+1))
#define SIGLEN(n) (FIXED+(uint64_t)(n)*SEED_LENGTH_BYTES)
#define MAXN ((sizeof(((sign_t*)0)->seed_storage)-1)/SEED_LENGTH_BYTES)
static unsigned char*SM,*MSG,*KEY; static uint64_t LEN; static unsigned NS; static int verdict,called;
int ai_stub_LESS_verify(const pubkey_t*const pk,const char*const m,const uint64_t mlen,const sign_t*const sig){
  called++; ai_prove_eqv(mlen,LEN,"length of the verified message is signed length minus encoded signature length");
  ai_prove_eq(m,SM,LEN,"verified message is the prefix of the signed message"); ai_prove_eq(pk,KEY,sizeof*pk,"verified under the given public key");
  ai_uf_begin("verify"); ai_uf_in(sig,sizeof*sig);
  ai_prove_eq(sig,SM+LEN,SIGLEN(NS),"verified signature is the tail of the signed message");
  verdict=(int)ai_u64("verdict",0,1); return verdict; }
static size_t nsign;
size_t ai_stub_LESS_sign(const prikey_t*SK,const char*const m,const uint64_t mlen,sign_t*sig){
  called++; ai_prove_eqv(mlen,LEN,"length of the signed message"); ai_prove_eq(m,MSG,LEN,"message handed to signing"); ai_prove_eq(SK,KEY,sizeof*SK,"secret key handed to signing");
  ai_fresh(sig,sizeof*sig,"signature",1,0,255,0); sig->seed_storage[NS*SEED_LENGTH_BYTES]=NS; return NS; }
static void buf(uint64_t l){ SM=ai_object(l,"sm"); ai_fresh(SM,l,"sm",1,0,255,0); }
static void reject(uint64_t l,const char*why){ unsigned char*m=ai_object(l,"m"); unsigned long long ml=0; called=0; int r=crypto_sign_open(m,&ml,SM,l,KEY); ai_prove(r==-1,why); ai_prove(!called,"nothing is verified for a malformed input"); }
void ai_main(void){
#ifdef M_OPEN
  // Case split over the whole input space: length below the fixed part | last byte above capacity | last byte k and length below / at least the encoded length for k.
  pubkey_t*pk=ai_object(sizeof*pk,"pk"); ai_fresh(pk,sizeof*pk,"pk",1,0,255,0); ai_readonly(pk,1); KEY=(void*)pk;
  { uint64_t l=ai_u64("short_len",0,FIXED-1); buf(l); ai_readonly(SM,1); reject(l,"input shorter than any signature is rejected"); ai_reach("short"); }
  { uint64_t l=ai_u64("len",FIXED,1ull<<40); buf(l); SM[l-1]=(unsigned char)ai_u64("n",MAXN+1,255); ai_readonly(SM,1); reject(l,"seed count beyond the capacity is rejected"); ai_reach("count"); }
  for(unsigned k=0;k<=MAXN;k++){
    if(k){ uint64_t l=ai_u64("trunc_len",FIXED,SIGLEN(k)-1); buf(l); SM[l-1]=k; ai_readonly(SM,1); reject(l,"truncated signature is rejected"); ai_reach("trunc"); }
    LEN=ai_u64("mlen",0,1ull<<40); NS=k; called=0; uint64_t l=LEN+SIGLEN(k); buf(l); SM[l-1]=k; ai_readonly(SM,1);
    unsigned char*m=ai_object(LEN,"m"); unsigned long long ml=0; int r=crypto_sign_open(m,&ml,SM,l,KEY);
    ai_prove(called==1,"well-formed input is decided by verification"); ai_prove(r==verdict-1,"returns 0 exactly if verification succeeds, otherwise -1");
    if(verdict) { ai_prove(ml==LEN,"recovered length"); ai_prove_eq(m,SM,LEN,"recovered message"); } ai_reach("open"); }
#else
  prikey_t*sk=ai_object(sizeof*sk,"sk"); ai_fresh(sk,sizeof*sk,"sk",1,0,255,0); ai_readonly(sk,1); KEY=(void*)sk;
  LEN=ai_u64("mlen",0,1ull<<40); MSG=ai_object(LEN,"message"); ai_fresh(MSG,LEN,"message",1,0,255,0); ai_readonly(MSG,1);
  for(unsigned k=0;k<=MAXN;k++){ NS=k; called=0; SM=ai_object(LEN+LESS_CRYPTO_MAX_BYTES,"sm"); unsigned long long sl=0;
    int r=crypto_sign(SM,&sl,MSG,LEN,KEY); ai_prove(r==0,"signing returns 0"); ai_prove(called==1,"exactly one signature"); ai_prove_eqv(sl,LEN+SIGLEN(k),"reported length"); ai_prove_eq(SM,MSG,LEN,"message is the unmodified prefix");
    ai_prove(SM[sl-1]==k,"last byte is the number of published seeds"); ai_reach("signed"); }
#endif
}
