// 64-bit window collisions of double SHA-256 over messages of >64 bytes, nonce (8 bytes) at a place in the last block; two families (first blocks).
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <immintrin.h>
static const uint32_t K[64]={0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static void comp(uint32_t st[8], const uint8_t *p){
  const __m128i MASK=_mm_set_epi64x(0x0c0d0e0f08090a0bULL,0x0405060700010203ULL);
  __m128i T=_mm_loadu_si128((void*)st), S1=_mm_loadu_si128((void*)(st+4)), S0;
  T=_mm_shuffle_epi32(T,0xB1); S1=_mm_shuffle_epi32(S1,0x1B); S0=_mm_alignr_epi8(T,S1,8); S1=_mm_blend_epi16(S1,T,0xF0);
  __m128i A=S0,B=S1,m[4];
  for(int i=0;i<4;i++) m[i]=_mm_shuffle_epi8(_mm_loadu_si128((void*)(p+16*i)),MASK);
  for(int i=0;i<16;i++){
    __m128i w=m[i&3];
    __m128i x=_mm_add_epi32(w,_mm_loadu_si128((void*)(K+4*i)));
    S1=_mm_sha256rnds2_epu32(S1,S0,x); x=_mm_shuffle_epi32(x,0x0E); S0=_mm_sha256rnds2_epu32(S0,S1,x);
    if(i<12){ __m128i t=_mm_sha256msg1_epu32(m[i&3],m[(i+1)&3]); t=_mm_add_epi32(t,_mm_alignr_epi8(m[(i+3)&3],m[(i+2)&3],4)); m[i&3]=_mm_sha256msg2_epu32(t,m[(i+3)&3]); }
  }
  S0=_mm_add_epi32(S0,A); S1=_mm_add_epi32(S1,B);
  T=_mm_shuffle_epi32(S0,0x1B); S1=_mm_shuffle_epi32(S1,0xB1); S0=_mm_blend_epi16(T,S1,0xF0); S1=_mm_alignr_epi8(S1,T,8);
  _mm_storeu_si128((void*)st,S0); _mm_storeu_si128((void*)(st+4),S1);
}
static const uint32_t IV[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
static uint8_t msg[2][256]; static int len, nb, o1, o2, win; static uint32_t mid[2][8]; static uint8_t last[2][64];
static void hash(uint64_t x, uint8_t out[32]){
  int f=x&1; uint8_t b[64]; memcpy(b,last[f],64); memcpy(b+o1-64*nb,&x,4); memcpy(b+o2-64*nb,(uint8_t*)&x+4,4);
  uint32_t s[8]; memcpy(s,mid[f],32); comp(s,b);
  uint8_t c[64]={0}; for(int i=0;i<8;i++){uint32_t v=__builtin_bswap32(s[i]);memcpy(c+4*i,&v,4);} c[32]=0x80; c[62]=1;
  memcpy(s,IV,32); comp(s,c); for(int i=0;i<8;i++){uint32_t v=__builtin_bswap32(s[i]);memcpy(out+4*i,&v,4);}
}
static inline uint64_t F(uint64_t x){uint8_t o[32];hash(x,o);uint64_t r;memcpy(&r,o+win,8);return r;}
#define DPB 18
typedef struct{uint64_t end,start,n;} E; static E *tab; static uint64_t tsz=1<<22; static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; static volatile int done;
static void *work(void*a){
  uint64_t seed=(uint64_t)a*0x9E3779B97F4A7C15ULL+12345, ctr=0;
  while(!done){
    uint64_t st=(seed+=0xD1B54A32D192ED03ULL)*0xff51afd7ed558ccdULL; st^=st>>33; uint64_t x=st,n=0;
    while(!done){ x=F(x); n++; if(!(x&((1ULL<<DPB)-1)))break; if(n>(20ULL<<DPB)){n=0;break;} }
    if(done||!n) continue;
    pthread_mutex_lock(&mu);
    uint64_t h=(x>>DPB)*0x9E3779B97F4A7C15ULL>>42; 
    for(;;h=(h+1)&(tsz-1)){ if(!tab[h].n){tab[h]=(E){x,st,n};break;}
      if(tab[h].end==x){ uint64_t a=tab[h].start,b=st,na=tab[h].n,nb=n; if(a==b)break;
        while(na>nb){a=F(a);na--;} while(nb>na){b=F(b);nb--;}
        if(a==b)break; uint64_t pa=a,pb=b; while(a!=b){pa=a;pb=b;a=F(a);b=F(b);}
        if((pa&1)!=(pb&1)){ printf("%016lx %016lx\n",pa,pb); fflush(stdout); done=1;} else fprintf(stderr,"same family\n"); break; } }
    pthread_mutex_unlock(&mu);
  } return 0;
}
int main(int c,char**v){ // hex0 hex1 o1 o2 win threads
  for(int f=0;f<2;f++){ len=strlen(v[1+f])/2; for(int i=0;i<len;i++){unsigned t;sscanf(v[1+f]+2*i,"%2x",&t);msg[f][i]=t;} 
    nb=(len-1)/64; memcpy(mid[f],IV,32); for(int i=0;i<nb;i++) comp(mid[f],msg[f]+64*i); memset(last[f],0,64); memcpy(last[f],msg[f]+64*nb,len-64*nb); last[f][len-64*nb]=0x80; uint64_t bits=__builtin_bswap64(len*8ULL); memcpy(last[f]+56,&bits,8);}
  o1=atoi(v[3]);o2=atoi(v[4]);win=atoi(v[5]);int T=atoi(v[6]); tab=calloc(tsz,sizeof(E));
  if(T==0){uint8_t o[32];hash(strtoull(v[7],0,16),o);for(int i=0;i<32;i++)printf("%02x",o[i]);puts("");return 0;}
  if(T<0){ uint64_t x=1; for(int i=0;i<10000000;i++)x=F(x); printf("%lx\n",x); return 0;}
  pthread_t t[64]; for(long i=0;i<T;i++)pthread_create(t+i,0,work,(void*)(i+1)); for(int i=0;i<T;i++)pthread_join(t[i],0); return 0; }
