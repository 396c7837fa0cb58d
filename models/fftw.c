/* Exact DFT used in place of libfftw3 in the symbolic build. */
#include <stdlib.h>
#include <string.h>
#include <complex.h>
#include <math.h>
#include <stdio.h>
#include <fftw3.h>
#include "sx.h"
struct plan { int rank; int n[8]; double complex *in,*out; int sign; };
static double complex root(int k,int n){ k%=n; if(k<0) k+=n; double a=2*sx_pi()*k/n; return sx_mkc(cos(a),sin(a)); }
fftw_plan fftw_plan_dft(int rank,const int*n,fftw_complex*in,fftw_complex*out,int sign,unsigned f){ struct plan*p=calloc(1,sizeof*p); p->rank=rank; for(int i=0;i<rank;i++)p->n[i]=n[i]; p->in=(double complex*)in; p->out=(double complex*)out; p->sign=sign; (void)f; return (fftw_plan)p; }
fftw_plan fftw_plan_dft_1d(int n,fftw_complex*in,fftw_complex*out,int sign,unsigned f){ return fftw_plan_dft(1,&n,in,out,sign,f); }
fftw_plan fftw_plan_r2r(int r,const int*n,double*a,double*b,const fftw_r2r_kind*k,unsigned f){ (void)r;(void)n;(void)a;(void)b;(void)k;(void)f; fprintf(stderr,"r2r not modelled\n"); abort(); }
void fftw_execute(const fftw_plan pp){ struct plan*p=(struct plan*)pp; long V=1; for(int i=0;i<p->rank;i++) V*=p->n[i];
  double complex*a=malloc(V*sizeof*a),*b=malloc(V*sizeof*b); memcpy(a,p->in,V*sizeof*a);
  long st=1; for(int d=p->rank-1;d>=0;d--){ int n=p->n[d];
    for(long i=0;i<V;i++){ long x=(i/st)%n; long base=i-x*st; double complex s=0; for(int y=0;y<n;y++){ double complex w=root(p->sign*(int)x*y,n); double complex z=a[base+y*st];
        double re=creal(w)*creal(z)-cimag(w)*cimag(z), im=creal(w)*cimag(z)+cimag(w)*creal(z); s=sx_mkc(creal(s)+re,cimag(s)+im); } b[i]=s; }
    memcpy(a,b,V*sizeof*a); st*=n; }
  memcpy(p->out,a,V*sizeof*a); free(a); free(b); }
void fftw_destroy_plan(fftw_plan p){ free(p); }
void fftw_cleanup(void){} int fftw_init_threads(void){return 1;} void fftw_plan_with_nthreads(int n){(void)n;} void fftw_cleanup_threads(void){}
void*fftw_malloc(size_t n){ void*p=0; if(posix_memalign(&p,16,n?n:16)) return 0; return p; } void fftw_free(void*p){ free(p); }
int fftw_import_wisdom_from_file(FILE*f){ (void)f; return 1; } void fftw_export_wisdom_to_file(FILE*f){ (void)f; }
int fftw_import_wisdom_from_filename(const char*f){ (void)f; return 1; } int fftw_export_wisdom_to_filename(const char*f){ (void)f; return 1; }
