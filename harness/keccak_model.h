// Keccak-f[1600] written from the FIPS 202 definition (step mappings on A[x][y], rho offsets and round constants computed).
#pragma once
#include <stdint.h>
#include <string.h>
static uint64_t rotl64(uint64_t v,unsigned n){ n%=64; return n? (v<<n)|(v>>(64-n)):v; }
static int lfsr_rc(unsigned t){ if(t%255==0) return 1; unsigned R=1; for(unsigned i=1;i<=t%255;i++){ R<<=1; if(R&0x100) R^=0x171; } return R&1; }
static void model_keccakf(uint64_t*s){ // lane A[x][y] is s[x+5y]
  for(unsigned ir=0;ir<24;ir++){
    uint64_t C[5],D[5],B[25];
    for(int x=0;x<5;x++) C[x]=s[x]^s[x+5]^s[x+10]^s[x+15]^s[x+20];
    for(int x=0;x<5;x++) D[x]=C[(x+4)%5]^rotl64(C[(x+1)%5],1);
    for(int x=0;x<5;x++) for(int y=0;y<5;y++) s[x+5*y]^=D[x];
    unsigned off[25]; off[0]=0; { int x=1,y=0; for(unsigned t=0;t<24;t++){ off[x+5*y]=((t+1)*(t+2)/2)%64; int nx=y,ny=(2*x+3*y)%5; x=nx; y=ny; } }
    for(int x=0;x<5;x++) for(int y=0;y<5;y++) B[x+5*y]=rotl64(s[(x+3*y)%5+5*x],off[(x+3*y)%5+5*x]);
    for(int x=0;x<5;x++) for(int y=0;y<5;y++) s[x+5*y]=B[x+5*y]^(~B[(x+1)%5+5*y]&B[(x+2)%5+5*y]);
    for(int j=0;j<=6;j++) if(lfsr_rc(j+7*ir)) s[0]^=(uint64_t)1<<((1u<<j)-1);
  }
}
