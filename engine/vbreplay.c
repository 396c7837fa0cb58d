#include "vb.h"
#undef fopen
#undef fclose
#undef fgets
#undef sscanf
#undef printf
long long VB_IN[VB_MAXIN]; int VB_N=0,VB_BAD=0;
extern void harness(void);
int main(void){ const char*f=getenv("VB_CEX"); if(f){ FILE*o=fopen(f,"r"); char l[400]; int k; long long v; while(o&&fgets(l,400,o)) if(sscanf(l,"in %d %lld",&k,&v)==2&&k>=0&&k<VB_MAXIN) VB_IN[k]=v; if(o) fclose(o);} harness(); printf("REPLAY bad=%d\n",VB_BAD); return VB_BAD?1:0; }
