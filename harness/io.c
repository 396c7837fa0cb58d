/* A configuration written and read back: every link entry is a variable, the
   file is a real one in the scratch folder of the run. */
#include "lat.h"
#include "GLU_memcheck.h"
#include "writers.h"
#include "read_headers.h"
#include "read_config.h"
#include "GLUlib_wrap.h"
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <stdint.h>
static int wcheap,rcheap,reading,nreunit; static double PLAQ=0.3125432198765,TR=-0.0123456789;
short int have_memory_readers_writers(const GLU_output t){ (void)t; return (reading?rcheap:wcheap)?SLOW:FAST; }
short int have_memory_gauge(void){ return GLU_SUCCESS; }
double av_plaquette(const struct site*l){ (void)l; return PLAQ; }
double links(const struct site*l){ (void)l; return TR; }
void gram_reunit(GLU_complex*U){ (void)U; nreunit++; }
#if NC<4
/* the eight (three) numbers of the short form: any map from a matrix to so many reals and its inverse */
void shorten(GLU_real*a,const GLU_complex b[NCNC]){ for(int j=0;j<NCNC-1;j++) a[j]=((const double*)b)[j]; }
void rebuild(GLU_complex a[NCNC],const GLU_real*b){ for(int j=0;j<2*NCNC;j++) ((double*)a)[j]=j<NCNC-1?b[j]:0; }
#else
double complex LU_det_overwrite(const int N,GLU_complex*U){ /* any determinant routine: Laplace expansion */
  if(N==1) return U[0]; cplx s=0; cplx b[NCNC]; for(int c=0;c<N;c++){ int k=0; for(int i=1;i<N;i++)for(int j=0;j<N;j++) if(j!=c) b[k++]=U[i*N+j]; cplx t=c_mul(U[c],LU_det_overwrite(N-1,b)); s=(c&1)?c_sub(s,t):c_add(s,t);} return s; }
#endif
static uint32_t be32(const unsigned char*p){ return (uint32_t)p[0]<<24|(uint32_t)p[1]<<16|(uint32_t)p[2]<<8|p[3]; }
static uint64_t be64(const unsigned char*p){ return (uint64_t)be32(p)<<32|be32(p+4); }
static double bed(const unsigned char*p){ uint64_t v=be64(p); double d; memcpy(&d,&v,8); return d; }
static double led(const unsigned char*p){ double d; memcpy(&d,p,8); return d; }
static uint32_t rotl(uint32_t w,unsigned r){ return r?(w<<r|w>>(32-r)):w; }
static uint32_t crc(const unsigned char*p,size_t n){ uint32_t c=~0u; for(size_t i=0;i<n;i++){ c^=p[i]; for(int k=0;k<8;k++) c=c&1?(c>>1)^0xEDB88320u:c>>1; } return ~c; }
static unsigned char*buf; static size_t len;
static void slurp(const char*fn){ FILE*f=fopen(fn,"rb"); fseek(f,0,SEEK_END); len=ftell(f); rewind(f); free(buf); buf=malloc(len+1); if(fread(buf,1,len,f)!=len) abort(); buf[len]=0; fclose(f); }
static int field(const char*key,char*val){ /* text header */ const char*p=(char*)buf,*e=strstr(p,"END_HEADER\n"); size_t k=strlen(key); while(p<e){ const char*q=strchr(p,'\n'); if(!strncmp(p,key,k)&&!strncmp(p+k," = ",3)){ size_t n=q-p-k-3; memcpy(val,p+k+3,n); val[n]=0; return 1; } p=q+1; } return 0; }
static char l[200],v[400];
static unsigned char*lime(const char*type,uint64_t*n){ size_t o=0; while(o+144<=len){ if(be32(buf+o)!=0x456789ab) return 0; uint64_t m=be64(buf+o+8); if(!strcmp((char*)buf+o+16,type)){ *n=m; return buf+o+144; } o+=144+m+(m%8?8-m%8:0); } return 0; }
static const GLU_output TYPE[9]={OUTPUT_SMALL,OUTPUT_GAUGE,OUTPUT_NCxNC,OUTPUT_MILC,OUTPUT_SCIDAC,OUTPUT_ILDG,OUTPUT_HIREP,OUTPUT_CERN,OUTPUT_ILDG};
static const header_mode HEAD[9]={NERSC_HEADER,NERSC_HEADER,NERSC_HEADER,MILC_HEADER,SCIDAC_HEADER,ILDG_SCIDAC_HEADER,HIREP_HEADER,CERN_HEADER,ILDG_BQCD_HEADER};
static uint32_t cksum(const unsigned char*p,size_t n){ uint32_t c=0; size_t m=n; for(size_t i=0;i<n||m;i++){ unsigned b; if(i<n) b=p[i]; else { b=m&255; m>>=8; } c^=b<<24; for(int k=0;k<8;k++) c=c&0x80000000u?(c<<1)^0x04C11DB7u:c<<1; } return ~c; }
static void record(FILE*g,const char*type,const char*txt){ unsigned char h[144]={0x45,0x67,0x89,0xab,0,1,0x80,0}; uint64_t n=strlen(txt); for(int k=0;k<8;k++) h[8+k]=n>>(56-8*k); strcpy((char*)h+16,type); fwrite(h,1,144,g); fwrite(txt,1,n,g); char z[8]={0}; if(n%8) fwrite(z,1,8-n%8,g); }
static double entry(const struct site*lat,size_t i,int mu,int j){ return ((double*)lat[i].O[mu])[j]; }
int harness(int c,char**a){ int f=atoi(a[1]); wcheap=atoi(a[2]); rcheap=atoi(a[3]); Latt.flow=strtoul(a[4],0,10); size_t d[ND]; for(int m=0;m<ND;m++) d[m]=atoi(a[5+m]); const char*how=a[5+ND]; lat_dims(d); Latt.Nthreads=1;
  char t[64]; struct site*lat=lat_new(); size_t V=LVOLUME;
  for(size_t i=0;i<V;i++)for(int mu=0;mu<ND;mu++){ snprintf(t,64,"U%zu_%d_",i,mu); m_var(lat[i].O[mu],t);
#if NC==2
    lat[i].O[mu][2]=-conj(lat[i].O[mu][1]); lat[i].O[mu][3]=conj(lat[i].O[mu][0]);
#endif
  }
  struct site*ref=lat_new(); for(size_t i=0;i<V;i++)for(int mu=0;mu<ND;mu++) m_copy(ref[i].O[mu],lat[i].O[mu]);
  char dir[]="/tmp/vpchk_ioXXXXXX"; if(!mkdtemp(dir)) abort(); char fn[80]; snprintf(fn,80,"%s/cfg",dir);
  if(!strncmp(how,"full",4)||!strcmp(how,"nodir")){ /* the file system takes no more than so many bytes, or no file at all */
    struct rlimit o,r; getrlimit(RLIMIT_FSIZE,&o); signal(SIGXFSZ,SIG_IGN); r=o; r.rlim_cur=how[0]=='f'?strtoul(how+4,0,10):1; if(how[0]=='f') setrlimit(RLIMIT_FSIZE,&r); else snprintf(fn,80,"%s/no/cfg",dir);
    int ok=write_configuration(lat,fn,TYPE[f],"some details"); setrlimit(RLIMIT_FSIZE,&o); unlink(fn); rmdir(dir); sx_prove_true(ok==GLU_FAILURE,"a configuration that cannot be written is not reported as written"); return 0; }
  sx_prove_true(write_configuration(lat,fn,TYPE[f],"some details")==GLU_SUCCESS,"the configuration is written");
  sx_prove_true(write_configuration(lat,fn,TYPE[f],"some details")==GLU_FAILURE,"an existing file is not overwritten");
  slurp(fn);
  /* ---- the file by the format's own definition ---- */
  const unsigned char*D=0; int L=f==0?NCNC-1:f==1?2*NC*(NC-1):2*NCNC; size_t want=V*ND*L*8; uint32_t bq=0; uint32_t sum=0,s29=0,s31=0,c29=0,c31=0;
  if(f<3){ snprintf(l,200,f==0?"%dD_SU%d_GAUGE_SMALL":f==1?"%dD_SU%d_GAUGE":"%dD_SU%d_GAUGE_%dx%d",ND,NC,NC,NC); sx_prove_true(!strncmp((char*)buf,"BEGIN_HEADER\n",13),"header opens");
    sx_prove_true(field("DATATYPE",v)&&!strcmp(v,l),"data type"); sx_prove_true(field("FLOATING_POINT",v)&&!strcmp(v,"IEEE64BIG"),"precision and byte order");
    for(int m=0;m<ND;m++){ snprintf(l,200,"DIMENSION_%d",m+1); sx_prove_true(field(l,v)&&strtoul(v,0,10)==d[m],"dimension"); }
    sx_prove_true(field("PLAQUETTE",v)&&fabs(atof(v)-PLAQ)<1e-14,"plaquette"); sx_prove_true(field("LINK_TRACE",v)&&fabs(atof(v)-TR)<1e-14,"link trace"); sx_prove_true(field("SEQUENCE_NUMBER",v)&&strtoul(v,0,10)==Latt.flow,"sequence number"); sx_prove_true(field("ENSEMBLE_LABEL",v)&&!strcmp(v,"some details"),"details");
    D=(unsigned char*)strstr((char*)buf,"END_HEADER\n")+11; sx_prove_true(D+want==buf+len,"size of the data"); }
  else if(f==3){ D=buf+4+4*ND+64+4+8; sx_prove_true(be32(buf)==20104,"magic number"); for(int m=0;m<ND;m++) sx_prove_true(be32(buf+4+4*m)==d[m],"dimension"); sx_prove_true(be32(buf+4+4*ND+64)==0,"natural order"); size_t z=strnlen((char*)buf+4+4*ND,64); while(z<64&&!buf[4+4*ND+z]) z++; sx_prove_true(z==64,"nothing after the date"); sx_prove_true(D+want==buf+len,"size of the data"); }
  else if(f<6||f==8){ uint64_t n; D=lime(f==4?"scidac-binary-data":"ildg-binary-data",&n); sx_prove_true(D!=0&&n==want,"binary record"); if(!D) return 0; unsigned char*x=lime("scidac-private-file-xml",&n); sx_prove_true(x!=0,"file record"); if(!x) return 0; size_t o=snprintf(l,200,"<dims>"); for(int m=0;m<ND;m++) o+=snprintf(l+o,200-o,"%zu%s",d[m],m<ND-1?" ":"</dims>"); sx_prove_true(strstr((char*)x,l)!=0,"dimensions"); }
  else if(f==6){ sx_prove_true((int)be32(buf)==NC&&be32(buf+4)==d[ND-1],"colours and time extent"); for(int m=0;m<ND-1;m++) sx_prove_true(be32(buf+8+4*m)==d[m],"dimension"); sx_prove_true(bed(buf+4*(ND+1))==PLAQ,"plaquette"); D=buf+4*(ND+1)+8; want=V*ND*8*(NC==2?4:2*NCNC); sx_prove_true(D+want==buf+len,"size of the data"); }
  else { uint32_t n[4]; memcpy(n,buf,16); sx_prove_true(n[0]==d[3]&&n[1]==d[0]&&n[2]==d[1]&&n[3]==d[2],"dimensions"); sx_prove_true(fabs(led(buf+16)-NC*PLAQ)<1e-15,"plaquette"); D=buf+24; sx_prove_true(D+want==buf+len,"size of the data"); }
  if(D+want>buf+len) return 0;
  if(f<6||f==8) for(size_t i=0;i<V;i++){ const unsigned char*S=D+i*ND*L*8; for(int k=0;k<ND*L;k++){ const unsigned char*p=S+8*k; uint32_t w=be32(p)+be32(p+4); size_t r=i*ND*L+k; sum+=w; s29^=rotl(w,r%29); s31^=rotl(w,r%31); snprintf(t,64,"file %zu %d %d",i,k/L,k%L); sx_prove_eq(bed(p),entry(ref,i,k/L,k%L),t); } uint32_t w=crc(S,ND*L*8); c29^=rotl(w,i%29); c31^=rotl(w,i%31); }
  if(f<3) sx_prove_true(field("CHECKSUM",v)&&strtoul(v,0,16)==sum,"checksum is the sum of all words");
  if(f==3) sx_prove_true(be32(buf+4+4*ND+68)==s29&&be32(buf+4+4*ND+72)==s31,"checksums are the rotated exclusive ors");
  if(f==4||f==5||f==8){ uint64_t n; unsigned char*x=lime("scidac-checksum",&n); snprintf(l,200,"<suma>%x</suma><sumb>%x</sumb>",c29,c31); sx_prove_true(x&&strstr((char*)x,l)!=0,"checksums of the sites"); }
  if(f==6){ size_t p=0; int x[ND]; for(size_t n=0;n<V;n++){ size_t r=n; for(int m=ND-2;m>=0;m--){ x[m]=r%d[m]; r/=d[m]; } x[ND-1]=r; size_t i=i_of(x); for(int q=0;q<ND;q++){ int mu=q==0?ND-1:q-1; 
#if NC==2
      cplx*U=ref[i].O[mu]; double e[4]={RE(U[0]),IM(U[1]),-RE(U[1]),IM(U[0])}; for(int j=0;j<4;j++){ snprintf(t,64,"file %zu %d %d",i,mu,j); sx_prove_eq(bed(D+8*p),e[j],t); p++; }
#else
      for(int j=0;j<2*NCNC;j++){ snprintf(t,64,"file %zu %d %d",i,mu,j); sx_prove_eq(bed(D+8*p),entry(ref,i,mu,j),t); p++; }
#endif
    } } }
  if(f==7){ size_t p=0; int x[ND]; for(x[3%ND]=0;x[3%ND]<(int)d[3%ND];x[3%ND]++)for(x[0]=0;x[0]<(int)d[0];x[0]++)for(x[1]=0;x[1]<(int)d[1];x[1]++)for(x[2]=0;x[2]<(int)d[2];x[2]++) if((x[0]+x[1]+x[2]+x[3%ND])&1) for(int q=0;q<8;q++){ int mu=(q/2+3)%4; size_t i=i_of(x); if(q&1) i=sh_of(i,mu,-1); for(int j=0;j<2*NCNC;j++){ snprintf(t,64,"file %zu %d %d",i,mu,j); sx_prove_eq(led(D+8*p),entry(ref,i,mu,j),t); p++; } } }
  /* ---- and what is read back ---- */
  reading=1; Latt.head=HEAD[f]; size_t fl=Latt.flow; Latt.flow=f<3?fl+5:fl; free_latt(); for(int m=0;m<ND;m++) Latt.dims[m]=7; 
  if(f==8){ FILE*g=fopen(fn,"r+b"); fseek(g,D-buf+want,SEEK_SET); snprintf(v,400,"%1.12f",PLAQ); record(g,"bqcd-plaquette",v); bq=cksum(D,want); snprintf(v,400,"%u %zu",bq,want); record(g,"bqcd-cksum",v); if(ftruncate(fileno(g),ftell(g))) abort(); fclose(g);
    struct head_data H; sx_prove_true(read_file(&H,fn)!=NULL,"a first reading accepts the file"); free_latt(); for(int m=0;m<ND;m++) Latt.dims[m]=7; }
  int bad=!strcmp(how,"nc")||!strcmp(how,"nd")||!strcmp(how,"lnc")||!strcmp(how,"lnd")?4:!strcmp(how,"trunc")?1:!strcmp(how,"flip")?2:!strcmp(how,"plaq")?3:0; 
  if(bad==1){ if(truncate(fn,(D-buf)+want-8)) abort(); } if(bad==2){ FILE*g=fopen(fn,"r+b"); size_t o=(D-buf)+8*(want/16)+3; fseek(g,o,SEEK_SET); fputc(buf[o]^0x20,g); fclose(g); if(f<3){ PLAQ+=2e-6; TR+=2e-6; } } if(bad==3) PLAQ+=1e-3;
  if(bad==4){ /* the file claims another gauge group or number of dimensions */ int nc=how[strlen(how)-1]=='c'; if(how[0]=='l') Latt.head=LIME_HEADER; FILE*g=fopen(fn,"r+b"); if(f<3){ snprintf(l,200,"DATATYPE = %dD_SU%d",ND,NC); char*x=strstr((char*)buf,l); fseek(g,(unsigned char*)x-buf+(nc?16:11),SEEK_SET); fputc(nc?(char)(49+NC):(char)(49+ND),g); } else if(f==6){ fseek(g,3,SEEK_SET); fputc(NC+1,g); } else { for(size_t o=0;o+20<(size_t)(D-buf);o++){ if(nc&&!memcmp(buf+o,"<colors>",8)){ fseek(g,o+8,SEEK_SET); fputc(49+NC,g); } if(!nc&&!memcmp(buf+o,"<spacetime>",11)){ fseek(g,o+11,SEEK_SET); fputc(49+ND,g); } } } fclose(g); }
  struct head_data H; memset(&H,0x5a,sizeof H); H.precision=0x77; struct site*got=read_file(&H,fn); unlink(fn); rmdir(dir);
  if(bad){ sx_prove_true(got==NULL,bad==1?"a truncated file is rejected":bad==2?"changed data is rejected":bad==3?"a wrong plaquette is rejected":"a file for another gauge group or dimension is rejected"); return 0; }
  sx_prove_true(got!=NULL,"the file is accepted"); if(!got) return 0;
  for(int m=0;m<ND;m++) sx_prove_true(Latt.dims[m]==d[m],"dimensions read"); sx_prove_true(LVOLUME==V,"volume"); if(f<3) sx_prove_true(Latt.flow==fl,"sequence number read"); sx_prove_true(H.precision==DOUBLE_PREC,"precision read"); 
  if(f<3) sx_prove_true(H.checksum==sum,"checksum read"); if(f==3) sx_prove_true(H.checksum==s29&&H.checksumb==s31,"checksums read"); if(f==8) sx_prove_true(H.checksum==bq,"checksum read"); if(f==4||f==5) sx_prove_true(H.checksum==c29,"checksum read"); if(f<3||f>5) sx_prove_true(fabs(H.plaquette-PLAQ)<1e-7,"plaquette read");
  for(size_t i=0;i<V;i++)for(int mu=0;mu<ND;mu++){ cplx*x=got[i].O[mu],*y=ref[i].O[mu]; int n=f==0?NCNC-1:f==1?2*NC*(NC-1):2*NCNC; for(int j=0;j<n;j++){ snprintf(t,64,"read %zu %d %d",i,mu,j); sx_prove_eq(((double*)x)[j],((double*)y)[j],t); }
    if(f==1) for(int q=0;q<NC;q++){ cplx m[NCNC],w; int k=0; for(int r=0;r<NC-1;r++)for(int s=0;s<NC;s++) if(s!=q) m[k++]=y[r*NC+s]; w=m_detn(m,1);
        /* cofactor of the last row */ cplx LU(cplx*,int); w=LU(m,NC-1); if((NC-1+q)&1) w=c_scale(-1,w); snprintf(t,64,"last row %zu %d %d",i,mu,q); sx_prove_ceq(x[NC*(NC-1)+q],c_conj(w),t); }
    sx_prove_true(got[i].neighbor[mu]==sh_of(i,mu,1)&&got[i].back[mu]==sh_of(i,mu,-1),"neighbours"); }
  return 0; }
cplx LU(cplx*U,int N){ if(N==1) return U[0]; cplx s=0; cplx b[NCNC]; for(int c=0;c<N;c++){ int k=0; for(int i=1;i<N;i++)for(int j=0;j<N;j++) if(j!=c) b[k++]=U[i*N+j]; cplx t=c_mul(U[c],LU(b,N-1)); s=(c&1)?c_sub(s,t):c_add(s,t);} return s; }
