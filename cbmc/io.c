/* Byte order and checksums of the configuration files, for every bit pattern. */
#ifndef VB_MAXIN
#define VB_MAXIN 400
#endif
#include "Mainfile.h"
#include "GLU_bswap.h"
#include "crc.h"
#include "vb.h"
#ifndef VB_NATIVE
long long VB_IN[VB_MAXIN]; int VB_N=0;
#endif
struct latt_info Latt ;
#define B32() ((uint32_t)vb_int(0,0xffffffffLL))
#if PART==0
#define N 3
int harness(void){ { uint16_t a[N+1],b[N+1]; for(int i=0;i<=N;i++) b[i]=a[i]=vb_int(0,65535); bswap_16(N,a); for(int i=0;i<N;i++) VB_CHECK(a[i]==(uint16_t)((b[i]&255)<<8|b[i]>>8),"sixteen bit swap"); VB_CHECK(a[N]==b[N],"no element beyond the last"); }
  { uint32_t a[N+1],b[N+1]; for(int i=0;i<=N;i++) b[i]=a[i]=B32(); bswap_32(N,a); for(int i=0;i<N;i++) for(int k=0;k<4;k++) VB_CHECK((a[i]>>8*k&255)==(b[i]>>(24-8*k)&255),"thirty two bit swap"); VB_CHECK(a[N]==b[N],"no element beyond the last"); }
  { uint64_t a[N+1],b[N+1]; for(int i=0;i<=N;i++) b[i]=a[i]=(uint64_t)B32()<<32|B32(); bswap_64(N,a); for(int i=0;i<N;i++) for(int k=0;k<8;k++) VB_CHECK((a[i]>>8*k&255)==(b[i]>>(56-8*k)&255),"sixty four bit swap"); VB_CHECK(a[N]==b[N],"no element beyond the last"); }
  VB_REACH(); return 0; }
#elif PART==1
int harness(void){ /* one byte, any state: the polynomial; more bytes: one at a time */
  uint32_t c=B32(); unsigned char x=vb_int(0,255); uint32_t r=~c^x; for(int k=0;k<8;k++) r=r&1?(r>>1)^0xEDB88320u:r>>1; VB_CHECK(crc32(c,&x,1)==(uint32_t)~r,"one byte of the cyclic redundancy check");
  unsigned char b[LEN]; for(int i=0;i<LEN;i++) b[i]=vb_int(0,255); uint32_t d=c; for(int i=0;i<LEN;i++) d=crc32(d,b+i,1); VB_CHECK(crc32(c,b,LEN)==d,"bytes in order");
  VB_REACH(); return 0; }
#elif PART==2
int harness(void){ uint32_t s,n; unsigned char b[LEN]; for(int i=0;i<LEN;i++) b[i]=vb_int(0,255);
  CKSUM_ADD(b,LEN-1); CKSUM_ADD(b+LEN-1,1); CKSUM_GET(&s,&n); VB_CHECK(n==LEN,"bytes counted");
  uint32_t c=0; for(int i=0;i<=LEN;i++){ c^=(uint32_t)(i<LEN?b[i]:LEN)<<24; for(int k=0;k<8;k++) c=c&0x80000000u?(c<<1)^0x04C11DB7u:c<<1; } VB_CHECK(s==(uint32_t)~c,"the sum of the cksum utility");
  VB_REACH(); return 0; }
#endif
