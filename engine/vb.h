/* Harness API of the bit-precise engine (CBMC); the same source is compiled
   natively with sanitizers for replay. */
#ifndef VB_H
#define VB_H
#include <stddef.h>
#include <stdint.h>
#ifndef VB_MAXIN
#define VB_MAXIN 512
#endif
#ifdef VB_NATIVE
#include <stdio.h>
#include <stdlib.h>
extern long long VB_IN[VB_MAXIN]; extern int VB_N; extern int VB_BAD;
static inline long long vb_int(long long lo,long long hi){ long long v=VB_N<VB_MAXIN?VB_IN[VB_N]:lo; VB_N++; if(v<lo||v>hi) { printf("REPLAY assume-violated\n"); exit(3);} return v; }
#define VB_ASSUME(c) do{ if(!(c)){ printf("REPLAY assume-violated\n"); exit(3);} }while(0)
#define VB_CHECK(c,l) do{ if(!(c)){ printf("REPLAY FAIL %s\n",l); fflush(stdout); VB_BAD++; } }while(0)
#define VB_REACH() ((void)0)
#else
extern long long VB_IN[VB_MAXIN]; extern int VB_N;
long long nondet_ll(void); int nondet_int(void); unsigned char nondet_uc(void);
static inline long long vb_int(long long lo,long long hi){ long long v=nondet_ll(); __CPROVER_assume(v>=lo&&v<=hi); VB_IN[VB_N]=v; VB_N++; return v; }
#define VB_ASSUME(c) __CPROVER_assume(c)
#define VB_CHECK(c,l) __CPROVER_assert(c,"VB " l)
#define VB_REACH() __CPROVER_assert(0,"VBREACH")
#endif
#endif
