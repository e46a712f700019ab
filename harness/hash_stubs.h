// Hash functions as uninterpreted sponges: contents absorbed in order, output a function of the whole transcript.
// (That the code of fips202.c/keccakf1600.c implements exactly this is property C18.)
#include "fips202.h"
#ifndef ON_SQUEEZE
#define ON_SQUEEZE(out,n,s,NAME) ai_sponge_squeeze(out,n,sizeof*s,s,NAME);
#endif
#define INC(v,NAME) \
void ai_stub_##v##_inc_init(v##incctx*s){ ai_sponge_init(s,sizeof*s,NAME); } \
void ai_stub_##v##_inc_absorb(v##incctx*s,const uint8_t*in,size_t n){ ai_sponge_absorb(s,sizeof*s,in,n,NAME); }
#define XOF(v,NAME) INC(v,NAME) \
void ai_stub_##v##_inc_finalize(v##incctx*s){ ai_sponge_final(s,sizeof*s,NAME); } \
void ai_stub_##v##_inc_squeeze(uint8_t*out,size_t n,v##incctx*s){ ON_SQUEEZE(out,n,s,NAME) } \
void ai_stub_##v(uint8_t*out,size_t outlen,const uint8_t*in,size_t n){ v##incctx s; ai_sponge_init(&s,sizeof s,NAME); ai_sponge_absorb(&s,sizeof s,in,n,NAME); ai_sponge_final(&s,sizeof s,NAME); ai_sponge_squeeze(out,outlen,sizeof s,&s,NAME); }
#define SHA(v,NAME,L) INC(v,NAME) \
void ai_stub_##v##_inc_finalize(uint8_t*out,v##incctx*s){ ai_sponge_digest(out,L,sizeof*s,s,NAME); ON_DIGEST(out,L) } \
void ai_stub_##v(uint8_t*out,const uint8_t*in,size_t n){ v##incctx s; ai_sponge_init(&s,sizeof s,NAME); ai_sponge_absorb(&s,sizeof s,in,n,NAME); ai_sponge_digest(out,L,sizeof s,&s,NAME); ON_DIGEST(out,L) }
#ifndef ON_DIGEST
#define ON_DIGEST(o,l)
#endif
XOF(shake128,"SHAKE128") XOF(shake256,"SHAKE256")
SHA(sha3_256,"SHA3-256",32) SHA(sha3_384,"SHA3-384",48) SHA(sha3_512,"SHA3-512",64)
#if defined(CATEGORY_1)
#define XOFNAME "SHAKE128"
#else
#define XOFNAME "SHAKE256"
#endif
