From 3dc62551e5f571f8b5e359a6b1f9f7b26e9ce66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 01/56] fix: generic multab_dagdag returned the conjugate of
 the product for NC > 3

---
 src/Matrix_Ops/MMUL/MMULdagdag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/MMUL/MMULdagdag.c b/src/Matrix_Ops/MMUL/MMULdagdag.c
index 5cd8171..b53af30 100755
--- a/src/Matrix_Ops/MMUL/MMULdagdag.c
+++ b/src/Matrix_Ops/MMUL/MMULdagdag.c
@@ -63,7 +63,7 @@ multab_dagdag( GLU_complex a[ NCNC ] ,
 	sumi += REB * IMC + IMB * REC ;
 	pB += NC ;
       }
-      a[ j + NC*i ] = sumr + I * sumi ;
+      a[ j + NC*i ] = sumr - I * sumi ;
       pC += NC ;
     }
   }
-- 
2.43.0


From 346a1c870bd529d381e3001b7f957117379fd8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 02/56] fix: SU(2) plaquette trace did not compile without SSE2

---
 src/Field/plaqs_links.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index a2518d1..deabe2a 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -190,7 +190,7 @@ complete_plaquette( const GLU_complex *__restrict a ,
   tr += (double)creal( ( tra3 * conj(c[0]) + tra4 * conj(c[1]))*conj(d[2]) ) ;
   tr += (double)creal( ( tra3 * conj(c[2]) + tra4 * conj(c[3]))*conj(d[3]) ) ;
 
-  return tra + trb ;
+  return tr ;
   
   #endif
 #else
-- 
2.43.0


From b840b7e38beefc5d15f146dc774690352c25f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 03/56] fix: Vandermonde solve dropped the last interpolation
 step, wrong exp and log with GSL for NC > 3

---
 src/Matrix_Ops/vandermonde.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/vandermonde.c b/src/Matrix_Ops/vandermonde.c
index 0286a3c..3af6ee8 100755
--- a/src/Matrix_Ops/vandermonde.c
+++ b/src/Matrix_Ops/vandermonde.c
@@ -36,7 +36,7 @@ solvandermonde( double complex f[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- != 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[i] = f[i] - ( f[ i + 1 ] * x[k] ) ;
     }
@@ -68,7 +68,7 @@ solvandermonde_new( const double q[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- != 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[ i ] -= ( f[ i + 1 ] * q[k] ) ;
     }
-- 
2.43.0


From c9faf8651a572d9fc0ee7324189bca0414093e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 04/56] fix: matrix-vector product for NC = 3 used S[6] in
 place of S[5]

---
 src/Matrix_Ops/U_Nops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/U_Nops.c b/src/Matrix_Ops/U_Nops.c
index 6d3a881..9e67b50 100755
--- a/src/Matrix_Ops/U_Nops.c
+++ b/src/Matrix_Ops/U_Nops.c
@@ -414,7 +414,7 @@ mat_mult_vec( GLU_complex vect[ NC ] ,
 {
 #if NC == 3
   vect[0] = S[0] * v[0] + S[1] * v[1] + S[2] * v[2] ; 
-  vect[1] = S[3] * v[0] + S[4] * v[1] + S[6] * v[2] ; 
+  vect[1] = S[3] * v[0] + S[4] * v[1] + S[5] * v[2] ; 
   vect[2] = S[6] * v[0] + S[7] * v[1] + S[8] * v[2] ; 
 #elif NC == 2
   vect[0] = S[ 0 ] * v[ 0 ] + S[ 1 ] * v[ 1 ] ;
-- 
2.43.0


From ad8f0ea62da1f6a32bac2f7510f962fadceb4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 05/56] fix: SSE2 matrix inverse searched for the pivot in the
 wrong matrix

---
 src/Matrix_Ops/invert_SSE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/invert_SSE.c b/src/Matrix_Ops/invert_SSE.c
index f63b7e3..db01cc0 100644
--- a/src/Matrix_Ops/invert_SSE.c
+++ b/src/Matrix_Ops/invert_SSE.c
@@ -118,7 +118,7 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
     piv = i ;
     best = absfac( *( pA + i*(NC+1) ) ) ;
     for( j = i+1 ; j < NC ; j++ ) {
-       attempt = absfac( *( pB + i + j*NC ) ) ;
+       attempt = absfac( *( pA + i + j*NC ) ) ;
       if( _mm_ucomilt_sd( best , attempt ) ) { 
 	piv = j ; 
 	best = attempt ; 
-- 
2.43.0


From a2f5eaa46edfc729be9262db72c12d29f17f8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 06/56] fix: SU(2) small-angle expansion of sin(z)/z was in z
 instead of z^2

---
 src/Matrix_Ops/effs.c   | 2 +-
 src/Matrix_Ops/exactQ.c | 4 ++--
 src/Matrix_Ops/expMat.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrix_Ops/effs.c b/src/Matrix_Ops/effs.c
index 990cc9b..6455a4f 100755
--- a/src/Matrix_Ops/effs.c
+++ b/src/Matrix_Ops/effs.c
@@ -95,7 +95,7 @@ f_hermitian_log_suNC( double complex f[ NC ] ,
   f[2] *= denom ;  
 #elif NC == 2
   f[0] = cos( z ) ;
-  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : I * sin( z ) / z ; 
+  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : I * sin( z ) / z ; 
 #else
   calculate_effs_VDM_suNC( f , z ) ;
 #endif
diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 54dee52..5374f44 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -196,7 +196,7 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
-  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z / 6. * ( 1. - herm_z / 20. * ( 1. - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
 
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
@@ -294,7 +294,7 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
-  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z / 6. * ( 1 - herm_z / 20. * ( 1 - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z*herm_z / 6. * ( 1 - herm_z*herm_z / 20. * ( 1 - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
   register const double complex oneOf1 = -I / ( f1 ) ;
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index a283c29..17b567a 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -276,7 +276,7 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * creal( Q[0] ) ;
   const double complex f1Q1 = I * f1 * Q[1] ;
@@ -501,7 +501,7 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z*z / 6. * ( 1 - z*z / 20. * ( 1 - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * Q[0] ;
   const double complex f1Q1 = I * f1 * Q[1] ;
-- 
2.43.0


From 400d85d59d6502eb1f507923ca902af39e8793d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 07/56] fix: packed traceless antihermitian projection for NC >
 3 subtracted a real trace

---
 src/Matrix_Ops/exactQ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 5374f44..cfe2c93 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -143,7 +143,7 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   tr /= (GLU_real)NC ;
   for( i = 0 ; i < NC-1 ; i++ ) {
     for( j = i ; j < NC ; j++ ) { 
-      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * cimag( U[ j + NC * i ] ) - tr ;
+      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * ( cimag( U[ j + NC * i ] ) - tr ) ;
       idx++ ;
     }
   }
-- 
2.43.0


From 5d5eda67a2fe3a76603f84d65652f021a7e05baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 08/56] fix: exact logarithm of the SU(3) identity left its
 result unset

---
 src/Matrix_Ops/exactQ.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index cfe2c93..46689b2 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -166,6 +166,9 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   // logically the log of these gives the hermitian z's
   z[2] = -( z[0] - z[1] ) ; 
   if( ( z[0] == z[1] ) && ( z[1] == z[2] ) ) {
+    // the logarithm of the identity
+    size_t i ;
+    for( i = 0 ; i < NCNC ; i++ ) { Q[ i ] = 0.0 ; }
     return ;
   }
   f_hermitian_log_suNC( f , z ) ;
-- 
2.43.0


From be42190d5efcd46017c03ff278a7d036ebfbc5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:27 +0000
Subject: [PATCH 09/56] fix: periodic to symmetric zone momentum conversion for
 odd lattice extents

---
 src/Geometry/geometry.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Geometry/geometry.c b/src/Geometry/geometry.c
index fc8bc4e..2310ed1 100755
--- a/src/Geometry/geometry.c
+++ b/src/Geometry/geometry.c
@@ -48,12 +48,11 @@ get_site_2piBZ( int x[ ND ] ,
     L_2 = Latt.dims[ mu ] >> 1 ;
     temp[mu] = x[mu] ;
     if( mu != DIMS ) {
-      if( temp[ mu ] >= (int)L_2 ) {
+      // for an odd extent the upper edge of the zone is (L-1)/2 inclusive
+      if( temp[ mu ] >= (int)( Latt.dims[ mu ] - L_2 ) ) {
 	temp [ mu ] -= (int)Latt.dims[ mu ] ;
       } 
-      if( temp[ mu ] < (int)L_2 ) {
-	temp [ mu ] += (int)L_2 ;
-      }
+      temp [ mu ] += (int)L_2 ;
     } else { // fill the rest with 0's
       temp[ mu ] = 0 ;
     }
-- 
2.43.0


From 316f33af8acd6c22becea14bfb1ecf32334c1696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:27 +0000
Subject: [PATCH 10/56] fix: draughtboard colored periodic neighbors alike for
 odd extents equal to 1 mod 3

---
 src/Geometry/draughtboard.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index f857884..1768c8f 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -60,6 +60,10 @@ get_midx( const size_t i ,
       even_sum += n[mu] ;
     } else {
       odd_sum  += n[mu] ;
+      // if L = 1 mod 3 the last site would share the color of the first
+      if( Latt.dims[mu]%3 == 1 && n[mu] == (int)Latt.dims[mu]-1 ) {
+	odd_sum++ ;
+      }
     }
   }
 #ifdef verbose
-- 
2.43.0


From 500fd42f39c20ed8b89651fdfef7da57de1f2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 11/56] fix: temporal and mean plaquette normalisation when ND
 is not 4

---
 src/Field/plaqs_links.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index deabe2a..622a895 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -234,8 +234,9 @@ all_plaquettes( const struct site *__restrict lat ,
     tplaq = tplaq + (double)p ;
   }
   *sp_plaq = 2.0 * spplaq / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  *t_plaq  = 2.0 * tplaq /  (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  return 0.5 * ( *sp_plaq + *t_plaq ) ; 
+  *t_plaq  = tplaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ;
+  // there are (ND-1)(ND-2)/2 spatial and ND-1 temporal planes
+  return ( ( ND - 2 ) * ( *sp_plaq ) + 2.0 * ( *t_plaq ) ) / ND ;
 }
 
 // average plaquette
@@ -339,7 +340,7 @@ t_plaq( const struct site *__restrict lat )
     }
     plaq = plaq + (double)p ;
   }
-  return 2.0 * ( plaq ) / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ; 
+  return plaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // sexy wrapper for the topological charge measurements to be called in parallel
-- 
2.43.0


From 44be7f7be41b1c6481c7b55413bc000d0d382db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:32 +0000
Subject: [PATCH 12/56] fix: tenth factorial in the moments of the topological
 charge

---
 src/Field/Qmoments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index d222d3b..88afacf 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -84,7 +84,7 @@ Time_Moments( double *Moment ,
   
   // factorials
   const double fac[ NQMOMENTS ] = { 1 , 1 , 2 , 6 , 24 , 120 , 720 ,
-				    5040 , 40320 , 362880 , 362800 ,
+				    5040 , 40320 , 362880 , 3628800 ,
 				    39916800 } ;
   const int LT = (int)Latt.dims[ DIR ] ;
   size_t dims[ ND ] ;
-- 
2.43.0


From 9ee3e49c6c628b5d9ed8666779cecbc2e759bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:32 +0000
Subject: [PATCH 13/56] fix: data race on the slab sum without FFTW

---
 src/Field/Qslab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 0bb25b1..25eb2ae 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -150,7 +150,7 @@ compute_slabs( const GLU_complex *qtop ,
       }
       // perform convolution the dumb way
       #else
-      #pragma omp parallel for private(i)
+      #pragma omp parallel for private(i) reduction(+:sum_slab)
       for( i = 0 ; i < subvol ; i++ ) {
 	const size_t src = slab_idx( i , dims , SLAB_DIR , T0 ) ;
 	const double qsrc = qtop[ src ] ;
-- 
2.43.0


From 77300d096225f8c514ef0af0bed86e65eedeffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:32 +0000
Subject: [PATCH 14/56] fix: temporal correlator of the topological charge was
 the charge itself without FFTW

---
 src/Field/Qcorr.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index f858a70..9c736f6 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -120,6 +120,7 @@ compute_Qcorr( struct site *__restrict lat ,
 #ifndef HAVE_FFTW3_H
   FFTW.in = FFTW.out = FFTW.psq = NULL ;
   FFTW.in = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
+  FFTW.out = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
 #else
   small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
 #endif
@@ -131,7 +132,7 @@ compute_Qcorr( struct site *__restrict lat ,
   // logic to fail
   if( list == NULL ) goto memfree ;
   if( qcorr == NULL ) goto memfree ;
-  if( FFTW.in == NULL ) goto memfree ;
+  if( FFTW.in == NULL || FFTW.out == NULL ) goto memfree ;
 
   // precompute all of charge densities q(x)
   compute_Gmunu_array( FFTW.in , lat ) ;
@@ -174,14 +175,14 @@ compute_Qcorr( struct site *__restrict lat ,
   // above it probably shouldn't be used unless under duress
 #else
 
-  // loop the possible rsqs
+  // loop all separations, the temporal correlator needs every one of them
   #pragma omp parallel for private(i)
-  for( i = 0 ; i < size[0] ; i++ ) {
+  for( i = 0 ; i < LVOLUME ; i++ ) {
     // some storage for the traces
     register double sumqq = 0.0 ;
 
     int separation[ ND ] ;
-    get_mom_2piBZ( separation , list[i].idx , ND ) ;
+    get_mom_2piBZ( separation , i , ND ) ;
 
     // loop the lattice varying source and sink with the correct separation
     size_t source = 0 ;
@@ -191,7 +192,18 @@ compute_Qcorr( struct site *__restrict lat ,
       //trace of the products
       sumqq += creal( FFTW.in[source] * FFTW.in[sink] ) ;
     }
-    qcorr[i] = sumqq * NORMSQ ;
+    FFTW.out[i] = sumqq * NORMSQ ;
+  }
+  // put it where the FFT would have, so that both builds output the same
+  #pragma omp parallel for private(i)
+  for( i = 0 ; i < LVOLUME ; i++ ) {
+    FFTW.in[i] = FFTW.out[i] ;
+  }
+
+  // loop the possible rsqs
+  #pragma omp parallel for private(i)
+  for( i = 0 ; i < size[0] ; i++ ) {
+    qcorr[i] = (double)creal( FFTW.in[ list[i].idx ] ) ;
   }
 #endif
 
@@ -220,6 +232,7 @@ compute_Qcorr( struct site *__restrict lat ,
   small_clean_up_fftw( FFTW ) ;
 #else
   free( FFTW.in ) ;
+  free( FFTW.out ) ;
 #endif
   
   // free the list
-- 
2.43.0


From 9002c1c44cf4a9606c397027e0531f6f66ab01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 15/56] fix: powers of the slice coordinate overflowed int in
 the moments of the topological charge

---
 src/Field/Qmoments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index 88afacf..b9935a8 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -113,7 +113,7 @@ Time_Moments( double *Moment ,
   }
 
   // initialise powers of t to t^0
-  int *tpow = malloc( Latt.dims[ DIR ] * sizeof( int ) ) ;
+  double *tpow = malloc( Latt.dims[ DIR ] * sizeof( double ) ) ;
   for( t = 0 ; t < (int)LT ; t++ ) {
     tpow[ t ] = 1 ;
   }
-- 
2.43.0


From 6f9a0dfdf3c34da4c8ceece0eea9e2cad6851b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:00 +0000
Subject: [PATCH 16/56] fix: SU(2) time-constancy measure compares the diagonal
 with itself

---
 src/Gfix/gftests.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index a3eccc5..e4a8c72 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -94,11 +94,11 @@ const_time( const struct site *__restrict lat ,
 
       #elif NC == 2
 
-      register const double re0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double re0 = creal( sum1[0] ) - creal( sum2[0] ) ;
       av += (double)fabs( re0 ) ; 
       av += (double)cabs( sum1[1] - sum2[1] ) ;
       // log def
-      register const double rel0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double rel0 = creal( sum1_log[0] ) - creal( sum2_log[0] ) ;
       avlog += (double)fabs( rel0 ) ; 
       avlog += (double)cabs( sum1_log[1] - sum2_log[1] ) ;
 
-- 
2.43.0


From f23be7090d645c72e5924e655863151503ac8633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:00 +0000
Subject: [PATCH 17/56] fix: theta tests can lose the maximum to a concurrent
 smaller update

---
 src/Gfix/gftests.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index e4a8c72..14229d0 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -236,7 +236,7 @@ theta_test_lin( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
@@ -276,7 +276,7 @@ theta_test_log( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
-- 
2.43.0


From 11b0b54860d1635aa3687048cf57b43a6c228445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:00 +0000
Subject: [PATCH 18/56] fix: SU(2) fast gauge derivative has a quarter of the
 norm of the other derivatives

---
 src/Gfix/lin_derivs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Gfix/lin_derivs.c b/src/Gfix/lin_derivs.c
index 2cd6c36..508135b 100755
--- a/src/Gfix/lin_derivs.c
+++ b/src/Gfix/lin_derivs.c
@@ -187,7 +187,8 @@ fast_deriv_AntiHermitian_proj( GLU_complex sum[ HERMSIZE ] ,
   *( sum + 0 ) = REsum0 ;
   *( sum + 1 ) = -I * REsum1 + IMsum1 ;
 
-  return ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
+  // same normalisation as trace_deriv, 2 Tr( dA dA )
+  return 4.0 * ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
 
 #endif
 }
-- 
2.43.0


From 0e4f66c237222d76ca2b454e78efd078bc139882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:00 +0000
Subject: [PATCH 19/56] fix: gauge fixing norms drop the diagonal of the
 derivative for SU(2) and SU(N>3)

---
 src/Gfix/CFACG.c | 8 ++++----
 src/Gfix/FACG.c  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index b87add8..61eb10c 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -185,7 +185,7 @@ sum_DER2( double *red ,
     GLU_complex temp[ HERMSIZE ] ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp[mu] = in[mu][i] ;
+      temp[mu] = -I * in[mu][i] ; // back to the hermitian form
     }
     GLU_real tr ;
     trace_ab_herm_short( &tr , temp , temp ) ;
@@ -232,14 +232,14 @@ sum_PR( double *red ,
     GLU_complex temp1[ HERMSIZE ] , temp2[ HERMSIZE ] ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp1[mu] = in[mu][i] ;
-      temp2[mu] = in[mu][i] - in_old[mu][i] ;
+      temp1[mu] = -I * in[mu][i] ; // back to the hermitian form
+      temp2[mu] = -I * ( in[mu][i] - in_old[mu][i] ) ;
     }
     GLU_real tr1 , tr2 ;
     trace_ab_herm_short( &tr1 , temp1 , temp1 ) ;
     trace_ab_herm_short( &tr2 , temp1 , temp2 ) ;
     loc_sum1 = 0.5 * (double)tr1 ;
-    loc_sum2 = 0.5 * (double)tr2 ;
+    loc_sum2 = (double)tr2 ;
 #endif
     const size_t th = get_GLU_thread() ;
 
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 41d0c2c..f9b96fa 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -131,8 +131,8 @@ sum_PR3( double *red ,
     GLU_complex a[ HERMSIZE ] GLUalign = {} , b[ HERMSIZE ] GLUalign = {} ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      a[mu] = in[mu][i] ;
-      b[mu] = in[mu][i] - in_old[mu][i];
+      a[mu] = -I * in[mu][i] ; // back to the hermitian form
+      b[mu] = -I * ( in[mu][i] - in_old[mu][i] ) ;
     }
     trace_ab_herm_short( &loc_sum1 , a , a ) ;
     trace_ab_herm_short( &loc_sum2 , a , b ) ;
@@ -165,7 +165,7 @@ sum_DER3( double *red ,
     GLU_complex temp[ HERMSIZE ] GLUalign ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp[mu] = in[mu][i] ;
+      temp[mu] = -I * in[mu][i] ; // back to the hermitian form
     }
     GLU_real tr ;
     trace_ab_herm_short( &tr , temp , temp ) ;
-- 
2.43.0


From 9c4587f248ee3d8c7d75c637eefd5dc7009541d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:12 +0000
Subject: [PATCH 20/56] fix: improved draughtboard rejected the suitable
 extents and accepted the others

---
 src/Geometry/draughtboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index 1768c8f..5323f86 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -138,7 +138,7 @@ init_improved_cb( struct draughtboard *db )
     return GLU_FAILURE ;
   }
   for( int mu = 0 ; mu < ND ; mu++ ) {
-    if( (Latt.dims[mu]%4 == 0 && Latt.dims[mu] >=4) ) {
+    if( !(Latt.dims[mu]%4 == 0 && Latt.dims[mu] >=4) ) {
       fprintf( stderr , "Unsuitable lattice dimension hit %zu\n" , Latt.dims[mu] ) ;
       return GLU_FAILURE ;
     }
-- 
2.43.0


From a26c364ff17a74e56c7afb9aef61f63ae8d807db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:12 +0000
Subject: [PATCH 21/56] fix: mean plaquette printed during updates
 misnormalised when ND is not 4

---
 src/Update/KPHB.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b5338a3..b73b185 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -63,7 +63,7 @@ perform_measurements( double *PLAQred ,
   {
     // write out the plaquette
     fprintf( stdout , "[UPDATE] %zu :: {P} %1.12f \n" , 
-	     conf_idx , pl/( NC*(ND-1)*(ND-2)*LVOLUME ) ) ;
+	     conf_idx , 2.0*pl/( NC*ND*(ND-1)*LVOLUME ) ) ;
   }
 
   // icc really hates this for some reason
-- 
2.43.0


From b376e22727d99de682dbfbb8eb88802e2b92a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:12 +0000
Subject: [PATCH 22/56] fix: DBW2 plaquette weight and one-loop rectangle
 weight off their published values (c0+8c1 must be one)

---
 docs/Smearing_info.tex        | 2 +-
 src/Headers/GLU_definitions.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/Smearing_info.tex b/docs/Smearing_info.tex
index 8f0b385..9e2af21 100755
--- a/docs/Smearing_info.tex
+++ b/docs/Smearing_info.tex
@@ -184,7 +184,7 @@ Improved smearing & $c_0$ & $c_1$ \\
 \rule{0pt}{2.6ex}
 Symanzik & $1+\frac{2}{3}(1-\epsilon)$ & -$\frac{1}{12}(1-\epsilon)$ \\
 Iwasaki & $1+2.648(1-\epsilon)$ & $-0.331(1-\epsilon)$ \\
-DBW2 & $1+11.2536(1-\epsilon)$ & $-1.4069(1-\epsilon)$ \\
+DBW2 & $1+11.2552(1-\epsilon)$ & $-1.4069(1-\epsilon)$ \\
 \hline
 \end{tabular}
 \caption{Table of the
diff --git a/src/Headers/GLU_definitions.h b/src/Headers/GLU_definitions.h
index 9317445..fe345fc 100755
--- a/src/Headers/GLU_definitions.h
+++ b/src/Headers/GLU_definitions.h
@@ -562,7 +562,7 @@ Defines for the gauge fixing routines ( Landau/{}.c )
     #define IWA_WEIGHT2 ( -0.331 * ( 1.0 - epsilon ) )
   #elif defined DBW2
     #define IMPROVED_SMEARING
-    #define IWA_WEIGHT1 ( 1.0 + 11.2536 * ( 1.0 - epsilon ) )
+    #define IWA_WEIGHT1 ( 1.0 + 11.2552 * ( 1.0 - epsilon ) )
     #define IWA_WEIGHT2 ( -1.4069 * ( 1.0 - epsilon ) )
   #elif defined SYMANZIK_ONE_LOOP
     #define IMPROVED_SMEARING
@@ -570,7 +570,7 @@ Defines for the gauge fixing routines ( Landau/{}.c )
     #define ONELOOPSYM_FACT -0.32590381274870533
     #define ALPHAS ONELOOPSYM_FACT * log( improve )
     #define SYMONELOOP_WEIGHT1 1.
-    #define SYMONELOOP_WEIGHT2 -( 1.0 - epsilon ) * ( 1. + 0.485 * ALPHAS ) / ( 20. * sqrt( improve ) ) 
+    #define SYMONELOOP_WEIGHT2 -( 1.0 - epsilon ) * ( 1. + 0.4805 * ALPHAS ) / ( 20. * sqrt( improve ) ) 
     #define SYMONELOOP_WEIGHT3 -( 1.0 - epsilon ) * 0.03325 * ALPHAS / sqrt( improve )
 #endif
 #endif
-- 
2.43.0


From 410f685f24579d201da9a874dca825abe39080a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:47 +0000
Subject: [PATCH 23/56] fix: improved smearing put the wrong time slice back
 into the third last slice

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 64a30f1..8f434ce 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -343,7 +343,7 @@ smear4D( struct site *__restrict lat ,
 	for( mu = 0 ; mu < ND ; mu++ ) {
           #ifdef IMPROVED_SMEARING
 	  equiv( lat[behind2+i].O[mu] , lat3[i].O[mu] ) ;
-	  equiv( lat[back].O[mu]      , lat3[i].O[mu] ) ;
+	  equiv( lat[back].O[mu]      , lat3[i+LCU].O[mu] ) ;
 	  equiv( lat[it].O[mu]        , lat4[i].O[mu] ) ;
 	  equiv( lat[it+LCU].O[mu]    , lat4[i+LCU].O[mu] ) ;
           #else
-- 
2.43.0


From 9a72ece5c90030053433e521beedeaba60c4e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:53 +0000
Subject: [PATCH 24/56] fix: last slices of the smeared field written by every
 thread of the team at once

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 8f434ce..1cb9695 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -335,7 +335,7 @@ smear4D( struct site *__restrict lat ,
       const size_t behind2 = lat[ behind ].back[ ND-1 ] ;
       #endif
 
-      #pragma omp parallel for private(i)
+      #pragma omp for private(i)
       for( i = 0 ; i < LCU ; i++ ) {
 	register const size_t back = behind + i ;
 	register const size_t it = slice + i ;
-- 
2.43.0


From d654f4bcfd9aa24e2ce21c9ea1ab5ca36b3c6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:39 +0000
Subject: [PATCH 25/56] fix: spatial smearing shadowed the tadpole factor its
 staples use

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 1cb9695..1a935c0 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -102,7 +102,7 @@ smear3D( struct site *__restrict lat ,
       }
       
       #ifdef SYMANZIK_ONE_LOOP
-      const double improve = av_plaquette( lat ) ;
+      improve = av_plaquette( lat ) ;
       #endif
       /////////////////////
       //loop time slices
-- 
2.43.0


From b6ddf68727aacbfafed7f6d826ee35d5c3f4bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:46 +0000
Subject: [PATCH 26/56] fix: smearing of an unknown type dereferenced or leaked
 its temporary fields

---
 src/Smear/smear.c      | 2 +-
 src/Utils/GLU_malloc.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 1a935c0..08a488d 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -84,7 +84,7 @@ smear3D( struct site *__restrict lat ,
   default :
     fprintf( stderr , "[SMEAR] Unrecognised type [ %d ] ... Leaving \n" , 
 	     type ) ; 
-    return GLU_FAILURE ;
+    FLAG = GLU_FAILURE ; goto memfree ;
   }
 
 #pragma omp parallel
diff --git a/src/Utils/GLU_malloc.c b/src/Utils/GLU_malloc.c
index 53acd8d..30c1aea 100644
--- a/src/Utils/GLU_malloc.c
+++ b/src/Utils/GLU_malloc.c
@@ -127,6 +127,7 @@ free_s_site( struct s_site *lat ,
 	     const size_t LENGTH1 ,
 	     const size_t LENGTH2 )
 {
+  if( lat == NULL ) return ;
 
   size_t i ;
 #pragma omp parallel for private(i)
-- 
2.43.0


From f9080e45f83201adb4cf121418f172468313b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:52 +0000
Subject: [PATCH 27/56] fix: improved flow freed twice as many sites of a
 temporary as it allocated

---
 src/Smear/wflowfuncs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index 464ee55..e3d0636 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -379,7 +379,7 @@ free_WF( struct wflow_temps *WF ,
     // free our fields
     free_s_site( WF->Z , LVOLUME , ND ) ;
 #ifdef IMPROVED_SMEARING
-    free_s_site( WF->lat2 , 2*LCU , ND ) ;
+    free_s_site( WF->lat2 , LCU , ND ) ;
     free_s_site( WF->lat3 , 2*LCU , ND ) ;
     free_s_site( WF->lat4 , 2*LCU , ND ) ;
 #else
-- 
2.43.0


From cca90df719d7caca22b55891b69e13d08eacdbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:38 +0000
Subject: [PATCH 28/56] fix: weights of the staples when ND is not 4

---
 src/Smear/ND_generic_HYP.c | 2 +-
 src/Smear/smear.c          | 4 ++--
 src/Wrappers/SM_wrap.c     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Smear/ND_generic_HYP.c b/src/Smear/ND_generic_HYP.c
index edbf791..6bf9896 100755
--- a/src/Smear/ND_generic_HYP.c
+++ b/src/Smear/ND_generic_HYP.c
@@ -49,7 +49,7 @@ init_smearing_alphas( const size_t MAXDIR )
 #else
   size_t mu ;
   for( mu = 0 ; mu < MAXDIR-1 ; mu++ ) {
-    smear_alphas[ mu+1 ] = Latt.sm_alpha[mu] / ( ( ND-mu-1 ) * ( ND-2 ) ) ;
+    smear_alphas[ mu+1 ] = Latt.sm_alpha[mu] / ( 2 * ( ND-mu-1 ) ) ;
     one_minus_smalpha[ mu+1 ] = ( 1.0 - Latt.sm_alpha[mu] ) ;
   }
 #endif
diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 08a488d..23956a7 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -46,7 +46,7 @@ smear3D( struct site *__restrict lat ,
   if( smiters == 0 ) { return GLU_SUCCESS ; }
 
 #if ND != 4 
-  const GLU_real alpha1 = Latt.sm_alpha[0] / ( ( ND-1 ) * ( ND -2 ) ) ;
+  const GLU_real alpha1 = Latt.sm_alpha[0] / ( 2 * ( ND-1 ) ) ;
   const GLU_real one_min_a1 = ( 1.0 - Latt.sm_alpha[0] ) ;
 #endif
   
@@ -181,7 +181,7 @@ smear4D( struct site *__restrict lat ,
   if( smiters == 0 ) { return GLU_SUCCESS ; }
 
 #if ND != 4 
-  const GLU_real alpha1 = ND > 2 ? Latt.sm_alpha[0] / ( ( ND - 1 ) * ( ND - 2 ) ) : Latt.sm_alpha[0] ;
+  const GLU_real alpha1 = ND > 2 ? Latt.sm_alpha[0] / ( 2 * ( ND - 1 ) ) : Latt.sm_alpha[0] ;
   const GLU_real one_min_a1 = ( 1.0 - Latt.sm_alpha[0] ) ;
 #endif	
 				     
diff --git a/src/Wrappers/SM_wrap.c b/src/Wrappers/SM_wrap.c
index f679820..cab270a 100755
--- a/src/Wrappers/SM_wrap.c
+++ b/src/Wrappers/SM_wrap.c
@@ -185,7 +185,7 @@ print_smearinfo( const struct sm_info SMINFO )
       size_t i ;
       for( i = 0 ; i < ND-1 ; i++ ) {
 	fprintf( stdout , "             (alpha%zu) %f\n" , i+1 , 
-		 Latt.sm_alpha[i]/( ( ND-i-1 ) * ( ND-2 ) ) ) ;
+		 Latt.sm_alpha[i]/( 2 * ( ND-i-1 ) ) ) ;
       }
     } else { 
       fprintf( stdout , "             (alpha) %f \n" , 
-- 
2.43.0


From b7c96031f1d75d0a6348a553291e57d458c7b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:44 +0000
Subject: [PATCH 29/56] fix: plaquette measured along the flow misnormalised
 when ND is not 4

---
 src/Smear/adaptive_flow.c | 2 +-
 src/Smear/wflow.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index c895a77..b8f37f9 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -78,7 +78,7 @@ get_plaq_th( struct site *lat ,
   for( size_t k = 0 ; k < Latt.Nthreads ; k++ ) {
     new_plaq += WF.red[ 3 + CLINE*k ] ;
   }
-  return new_plaq/( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+  return 2.0 * new_plaq/( NC * ND * ( ND-1 ) * LVOLUME ) ;
 }
 
 // two step adaptive routine
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index d0eff63..c266f1f 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -124,7 +124,7 @@ flow_RK3( struct site *__restrict lat ,
       for( k = 0 ; k < Latt.Nthreads ; k++ ) {
 	new_plaq += WF.red[ 3 + CLINE*k ] ;
       }
-      new_plaq /= ( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+      new_plaq *= 2.0 / ( NC * ND * ( ND-1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			err_est , lat ) ;
-- 
2.43.0


From 8a92404507019e465dab00144aa599cfa771596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:48 +0000
Subject: [PATCH 30/56] fix: measurement at the stopping time of the flow
 recorded with the time and plaquette of the step before

---
 src/Smear/wflow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index c266f1f..40f8f40 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -147,9 +147,18 @@ flow_RK3( struct site *__restrict lat ,
       const double delta_tcorr = WFLOW_TIME_STOP - count * delta_t ; 
       f( lat , WF , delta_tcorr , SM_TYPE , project ) ;
       // update the linked list
+      t = WFLOW_TIME_STOP ;
       curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      // compute plaquette
+      av_plaquette_th( WF.red , lat ) ;
+      size_t k ;
+      new_plaq = 0.0 ;
+      for( k = 0 ; k < Latt.Nthreads ; k++ ) {
+	new_plaq += WF.red[ 3 + CLINE*k ] ;
+      }
+      new_plaq *= 2.0 / ( NC * ND * ( ND-1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
-			new_plaq , t , delta_t ,
+			new_plaq , t , delta_tcorr ,
 			err_est , lat ) ;
       head = curr ;
       count++ ;
-- 
2.43.0


From 5da2cf84241deef87ba55c456dd664a75b871b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:43 +0000
Subject: [PATCH 31/56] fix: scale setting ignored the last measurement of the
 flow and read its derivative uninitialised

---
 src/Smear/wflowfuncs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index e3d0636..0398e9c 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -463,7 +463,7 @@ scaleset( struct wfmeas *curr ,
     curr = curr -> next ;
   }
   if( count > 0 ) {
-    t0 = evaluate_scale( der , time , GT , count , T_0 ) ;
+    t0 = evaluate_scale( der , time , GT , count + 1 , T_0 ) ;
   }
   if( t0 == -1 ) {
     #pragma omp master
@@ -483,7 +483,7 @@ scaleset( struct wfmeas *curr ,
       GT[ i ] = time[ i ] * der[ i ] ;
     }
   }
-  w0 = evaluate_scale( der , time , GT , count , W_0 ) ;
+  w0 = evaluate_scale( der , time , GT , count + 1 , W_0 ) ;
   if( w0 == -1 ) {
     #pragma omp master
     {
-- 
2.43.0


From d26b87c7891c5867e2cca8736845b57420da2664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:48 +0000
Subject: [PATCH 32/56] fix: real root of the cubic spline lost when the cube
 root is of a negative number, complex roots accepted

---
 src/Utils/GLU_splines.c | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/Utils/GLU_splines.c b/src/Utils/GLU_splines.c
index 18d16c6..98cddfa 100755
--- a/src/Utils/GLU_splines.c
+++ b/src/Utils/GLU_splines.c
@@ -292,17 +292,6 @@ cubic_min( const double *__restrict x ,
   return ans * diff + x[change_up-1] ;
 }
 
-// CALCULATES (one of) THE CUBE ROOT(s) //
-inline static void 
-cubert( double complex *__restrict res ,
-	const double complex z )
-{
-  register const double real = cabs( z ) ;
-  register const double angle = carg( z ) / 3.0 ; 
-  *res = cbrt( real ) * ( cos( angle ) + I * sin( angle ) ) ; 
-  return ;
-}
-
 // solve a quadratic ( ca x^2 + cb x + cc == 0 ) for x
 static double
 quad_solve( double complex *Z ,
@@ -314,7 +303,7 @@ quad_solve( double complex *Z ,
 				    csqrt( cb*cb - 4.0 * ca*cc ) ) ;
   Z[ 0 ] = q / ca ;
   Z[ 1 ] = cc / q ;
-  if( fabs( cimag( Z[0] ) ) < fabs( cimag( Z[0] ) ) ) {
+  if( fabs( cimag( Z[0] ) ) < fabs( cimag( Z[1] ) ) ) {
     return creal( Z[0] ) ;
   } else {
     return creal( Z[1] ) ;
@@ -356,10 +345,9 @@ cubic_solve( double complex Z[ 3 ] ,
     Z[1] = -2.0 * sqrt( Q ) * cos( ( theta + TWOPI ) / 3.0 ) - a/3.0 ;
     Z[2] = -2.0 * sqrt( Q ) * cos( ( theta - TWOPI ) / 3.0 ) - a/3.0 ;
   } else {
-    double complex res ;
-    cubert( &res , R + csqrt( R*R - Q*Q*Q ) ) ;
-    const double complex A = -res ;
-    const double complex B = ( A != 0.0 ) ? Q/A : 0.0 ;
+    // one real root, take the real cube root so that it is Z[0]
+    const double A = -sgn( R ) * cbrt( fabs( R ) + sqrt( R*R - Q*Q*Q ) ) ;
+    const double B = ( A != 0.0 ) ? Q/A : 0.0 ;
     Z[0] = ( A + B ) - a/3.0 ;
     Z[1] = -0.5 * ( A + B ) - a/3.0 - I * sqrt( 3 ) * 0.5 * ( A - B ) ;
     Z[2] = -0.5 * ( A + B ) - a/3.0 + I * sqrt( 3 ) * 0.5 * ( A - B ) ;
@@ -395,6 +383,8 @@ solve_spline( const double *__restrict x ,
   // should sanity-check the solution here too
   size_t roots = 0 ;
   for( roots = 0 ; roots < 3 ; roots++ ) {
+    // complex roots do not solve anything
+    if( fabs( cimag( Z[ roots ] ) ) > PREC_TOL ) continue ;
     const double sol = creal( Z[ roots ] ) * diff + x[ change_up - 1 ] ;
     if( sol < x[ change_up ] && sol > x[ change_up - 1 ] ) {
       return sol ;
-- 
2.43.0


From a8cb23779af9c277b41a8cf00ba9d1db0dc58873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:53 +0000
Subject: [PATCH 33/56] fix: derivatives left uninitialised for fewer than
 three points

---
 src/Utils/GLU_splines.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Utils/GLU_splines.c b/src/Utils/GLU_splines.c
index 98cddfa..ab9f902 100755
--- a/src/Utils/GLU_splines.c
+++ b/src/Utils/GLU_splines.c
@@ -140,7 +140,11 @@ spline_derivative( double *__restrict der ,
       return ;
     }
     printf( "[SPLINE] Too few points to compute a good cubic spline \n" ) ;
-    printf( "[SPLINE] Not doing anything \n" ) ;
+    // two points make a straight line, one gives no slope at all
+    size_t i ;
+    for( i = 0 ; i < N ; i++ ) {
+      der[i] = N == 2 ? ( y[1] - y[0] ) / ( x[1] - x[0] ) : 0.0 ;
+    }
     return ;
   }
 
-- 
2.43.0


From 62c4c440cec14bb4cbe3f5a49e44dc51127b6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:59 +0000
Subject: [PATCH 34/56] fix: scale not found when it coincides with a
 measurement

---
 src/Smear/wflowfuncs.c  |  2 +-
 src/Utils/GLU_splines.c | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index 0398e9c..b8cdab6 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -302,7 +302,7 @@ evaluate_scale( double *der ,
   for( i = 0 ; i < Nmeas ; i++ ) {
     spline_derivative( der , x , meas , Nmeas ) ;
     // W_0 scale
-    if( i > 0 && ( meas[ i ] > scale ) && ( meas[ i - 1 ] < scale ) ) {
+    if( i > 0 && ( meas[ i ] >= scale ) && ( meas[ i - 1 ] < scale ) ) {
       change_up = i ;
     }
     #ifdef verbose
diff --git a/src/Utils/GLU_splines.c b/src/Utils/GLU_splines.c
index ab9f902..625ac98 100755
--- a/src/Utils/GLU_splines.c
+++ b/src/Utils/GLU_splines.c
@@ -325,11 +325,15 @@ cubic_solve( double complex Z[ 3 ] ,
 {
   // if ca is super small this is a quadratic
   if( fabs( ca ) < PREC_TOL ) {
-    return quad_solve( Z , cb , cc , cd - eval ) ; 
+    const double root = quad_solve( Z , cb , cc , cd - eval ) ;
+    Z[2] = Z[1] ;
+    return root ;
   }
   // if the constant term is zero the solution is quadratic too
   if( fabs( cd - eval ) < PREC_TOL ) {
-    return quad_solve( Z , ca , cb , cc ) ; 
+    const double root = quad_solve( Z , ca , cb , cc ) ;
+    Z[2] = 0.0 ;
+    return root ;
   }
 
   // divide through by a, x^3 + (b/a)x^2 + (c/a)x + ( d - eval )/ a
@@ -389,9 +393,10 @@ solve_spline( const double *__restrict x ,
   for( roots = 0 ; roots < 3 ; roots++ ) {
     // complex roots do not solve anything
     if( fabs( cimag( Z[ roots ] ) ) > PREC_TOL ) continue ;
-    const double sol = creal( Z[ roots ] ) * diff + x[ change_up - 1 ] ;
-    if( sol < x[ change_up ] && sol > x[ change_up - 1 ] ) {
-      return sol ;
+    // the ends of the interval belong to it
+    const double t = creal( Z[ roots ] ) ;
+    if( t < 1.0 + PREC_TOL && t > -PREC_TOL ) {
+      return t * diff + x[ change_up - 1 ] ;
     }
   }
   return -1.0 ;
-- 
2.43.0


From 4fb0b652d9002cb05cb3e3d102bcf9620de361ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:15 +0000
Subject: [PATCH 35/56] fix: failure code of the Landau fixing raced on by
 every thread, and lost in the steepest descent

---
 src/Gfix/FACG.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index f9b96fa..165704a 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -378,7 +378,10 @@ FACG( struct site *lat ,
 	}
 	goto top ;
       } else {
-	iters = 123456789 ;
+	#pragma omp master
+	{
+	  iters = 123456789 ;
+	}
       }
     }
   }
@@ -414,7 +417,8 @@ FASD( struct site *lat ,
 
 #pragma omp parallel
   {
-    size_t loc_iters = 1 ;    
+    size_t loc_iters = 1 ;
+    GLU_bool failed = GLU_FALSE ;
   top :
     loc_iters = steep_Landau_FASD( lat , FFTW , &CG , th ,
 				   acc , max_iters ) ;
@@ -429,12 +433,12 @@ FASD( struct site *lat ,
 	}
 	goto top ;
       } else {
-	iters = 123456789 ;
+	failed = GLU_TRUE ;
       }
     }
 #pragma omp master
     {
-      iters += loc_iters ;
+      iters = ( failed == GLU_TRUE ) ? 123456789 : iters + loc_iters ;
     }
   }
 
-- 
2.43.0


From 89dc805411460bbca90aee9b3381c43954b24574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:21 +0000
Subject: [PATCH 36/56] fix: continuation of the Landau conjugate gradient
 started from the sums of the run before

---
 src/Gfix/FACG.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 165704a..84516ee 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -244,6 +244,15 @@ steep_Landau_FACG( struct site *lat ,
 {  
   size_t k , loc_iters = 0  ;
   double trAA = 0.0 , inold = 0.0 , insum = 0.0 , sum_conj = 0.0 ;
+
+  // a continuation run finds the sums of the run before
+  {
+    #pragma omp barrier
+  }
+  #pragma omp for private(k)
+  for( k = 0 ; k < CLINE*Latt.Nthreads ; k++ ) {
+    CG -> red[k] = 0.0 ;
+  }
     
   // perform an SD start
   steep_Landau_FA( CG -> red , lat , FFTW ) ;
-- 
2.43.0


From 16816cf45414a8fadb6b285a51eaebd07e1bcf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:37 +0000
Subject: [PATCH 37/56] fix: Coulomb temporaries freed uninitialised when a
 lattice has no draughtboard

---
 src/Geometry/draughtboard.c | 2 +-
 src/Gfix/CGalloc.c          | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index 5323f86..a9d43fc 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -85,7 +85,7 @@ init_cb( struct draughtboard *db ,
 
   // initially set up the database
   db -> Ncolors = 3 ;
-  db -> square  = malloc( db -> Ncolors * sizeof( size_t* ) ) ;
+  db -> square  = calloc( db -> Ncolors , sizeof( size_t* ) ) ;
   db -> Nsquare = malloc( db -> Ncolors * sizeof( size_t ) ) ;
   
   // set the counters to zero
diff --git a/src/Gfix/CGalloc.c b/src/Gfix/CGalloc.c
index b644877..4fcda49 100644
--- a/src/Gfix/CGalloc.c
+++ b/src/Gfix/CGalloc.c
@@ -30,6 +30,10 @@ allocate_temp_cg( struct gauges *G ,
 		  struct CGtemps *CG ,
 		  const GLU_bool FACG )
 {
+  // all of these are freed if we fail on the way
+  G -> g = G -> g_up = G -> g_end = NULL ;
+  CG -> sn = CG -> in_old = NULL ;
+  CG -> db.square = NULL ; CG -> db.Nsquare = NULL ; CG -> db.Ncolors = 0 ;
   GLU_bool FLAG = GLU_FALSE ;
   size_t i ;
   if( ( CG -> red = calloc( LINE_NSTEPS + CLINE * Latt.Nthreads , sizeof( double ) ) ) == NULL ) {
-- 
2.43.0


From 914ea5ada01d5c64ff6ca72b70534a53ceb4416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:46 +0000
Subject: [PATCH 38/56] fix: direction index shared by every thread in the
 configuration space propagator

---
 src/Cuts/config_gluons.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index bc9eb0c..f6aa285 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -137,7 +137,7 @@ spatial_correlator( struct site *__restrict A ,
   }
 
   // compute the convolution in momentum space
-#pragma omp parallel for private(i)
+#pragma omp parallel for private(i,mu)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex tr , sum = 0.0 ;
     #ifdef CUT_FORWARD
-- 
2.43.0


From 06e1c50fbbac4138f7c836ba064dea36c078b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:12 +0000
Subject: [PATCH 39/56] fix: topological charge of a lattice that is not four
 dimensional was uninitialised memory

---
 src/Field/clover.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Field/clover.c b/src/Field/clover.c
index 6cec5a5..5b83ab1 100755
--- a/src/Field/clover.c
+++ b/src/Field/clover.c
@@ -926,6 +926,8 @@ compute_q( GLU_complex q[ NCNC ] ,
   #endif
   // compute the product of G_MUNU_1 with G_MUNU_2
   multab( q , GMUNU_1 , GMUNU_2 ) ;
+#else
+  zero_mat( q ) ;
 #endif
   return ;
 }
@@ -979,6 +981,8 @@ compute_Gmunu_kernel( double *__restrict plaq_t ,
   *plaq_sp = 2.0 * ( (double)NC - (double)trace( sum_1 ) ) ;
   *plaq_t  = 2.0 * ( (double)NC - (double)trace( sum_2 ) ) ;
 #endif
+#else
+  *plaq_t = *plaq_sp = *qtop = 0.0 ;
 #endif
   return ;
 }
-- 
2.43.0


From 975e05d59fcb76922c0b1f6e737d86b22f468517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:16 +0000
Subject: [PATCH 40/56] fix: U1 topological charge read directions a lattice
 that is not four dimensional does not have

---
 src/U1/U1_top.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/U1/U1_top.c b/src/U1/U1_top.c
index 401f1e8..a868981 100755
--- a/src/U1/U1_top.c
+++ b/src/U1/U1_top.c
@@ -135,6 +135,7 @@ static double
 non_Qtop( const GLU_complex **O )
 {
   double charge = 0.0 ;
+#if ND == 4
   size_t i;
 #pragma omp parallel for private(i) reduction(+:charge)
   for( i = 0 ; i < LVOLUME ; i++ ) {
@@ -145,6 +146,7 @@ non_Qtop( const GLU_complex **O )
     // parallel reduction on charge
     charge = charge + (double)qtemp ;
   }
+#endif
   return charge * 0.001583143494411527678811 ;
 }
 
-- 
2.43.0


From 6c69f530835725e249e123c821a4cbfd66ef2359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:58 +0000
Subject: [PATCH 41/56] fix: the library did not build with the KISS or the
 WELL_512 generator

---
 src/Headers/par_KISS.h | 7 +++++++
 src/Utils/par_rng.c    | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Headers/par_KISS.h b/src/Headers/par_KISS.h
index 30232b9..70d03b8 100755
--- a/src/Headers/par_KISS.h
+++ b/src/Headers/par_KISS.h
@@ -30,6 +30,13 @@
 void
 free_par_KISS( void ) ;
 
+/**
+   @fn void GLU_set_par_KISS_table( const uint32_t seed[ Latt.Nthreads ] )
+   @brief allocate and seed the KISS table
+ */
+void
+GLU_set_par_KISS_table( const uint32_t seed[ Latt.Nthreads ] ) ;
+
 /**
    @fn par_KISS_dbl( const uint32_t thread )
    @brief redturn a uniformly distributed double value
diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 6a66874..06526db 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -198,7 +198,7 @@ par_rng_dbl( const uint32_t thread )
 #elif (defined MWC_1038_RNG)
   return par_MWC_1038_dbl( thread ) ;
 #elif (defined WELL_512_RNG)
-  return par_Well_512_dbl( thread ) ;
+  return par_WELL_512_dbl( thread ) ;
 #else
   return par_MWC_4096_dbl( thread ) ;
 #endif
-- 
2.43.0


From 2ed53f0f68d9404f41db36bc5fa2a81bb5f1703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:58 +0000
Subject: [PATCH 42/56] fix: WELL_512 generator state was saved as the
 (unallocated) MWC_4096 one

---
 src/Utils/par_rng.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 06526db..0b28899 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -329,6 +329,8 @@ write_par_rng_state( const char *outfile )
   fprintf( out , "RNG = PAR_XOR_1024\n" ) ;
 #elif (defined MWC_1038_RNG)
   fprintf( out , "RNG = PAR_MWC_1038\n" ) ;
+#elif (defined WELL_512_RNG)
+  fprintf( out , "RNG = PAR_WELL_512\n" ) ;
 #else
   fprintf( out , "RNG = PAR_MWC_4096\n" ) ;
 #endif
@@ -344,6 +346,8 @@ write_par_rng_state( const char *outfile )
   write_par_XOR_1024_table( out ) ;
 #elif (defined MWC_1038_RNG)
   write_par_MWC_1038_table( out ) ;
+#elif (defined WELL_512_RNG)
+  write_par_WELL_512_table( out ) ;
 #else
   write_par_MWC_4096_table( out ) ;
 #endif
-- 
2.43.0


From fb9d24c96f970d6f76e634e6aaa0a05fb8abaf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:58 +0000
Subject: [PATCH 43/56] fix: saved KISS generator state was read back without
 undoing the byte swap

---
 src/Utils/par_KISS.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utils/par_KISS.c b/src/Utils/par_KISS.c
index 6f97899..e159761 100644
--- a/src/Utils/par_KISS.c
+++ b/src/Utils/par_KISS.c
@@ -104,6 +104,12 @@ read_par_KISS_table( FILE *rng_file )
       return GLU_FAILURE ;
     }
   }
+  // swap them if we aren't big endian
+  if( !WORDS_BIGENDIAN ) { 
+    for( i = 0 ; i < Latt.Nthreads ; i++ ) {
+      bswap_32( RNG_TABLE , table[i] ) ;
+    }
+  }
   return GLU_SUCCESS ;
 }
 
-- 
2.43.0


From 95f939939c64e40677120d559fe0825c8c026f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:58 +0000
Subject: [PATCH 44/56] fix: MWC_4096 generator reset its index on every draw
 and only ever used one word of its state

---
 src/Utils/par_MWC_4096.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utils/par_MWC_4096.c b/src/Utils/par_MWC_4096.c
index ae207fc..25c123e 100644
--- a/src/Utils/par_MWC_4096.c
+++ b/src/Utils/par_MWC_4096.c
@@ -32,7 +32,6 @@ static uint32_t *mcwc_i ; // index
 static uint32_t
 par_MWC_4096( const uint32_t thread )
 {
-  mcwc_i[thread] = 4095 ;
   mcwc_i[thread] = ( mcwc_i[thread]+1 )&4095 ;
 
   const uint64_t t = 18782LL*table[thread][mcwc_i[thread]] + carry[thread] ;
-- 
2.43.0


From f37ef363d11ad45ec116ff19be687733287d444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:58 +0000
Subject: [PATCH 45/56] fix: XOR_1024 generator could return exactly one

---
 src/Utils/par_XOR_1024.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/par_XOR_1024.c b/src/Utils/par_XOR_1024.c
index 8b107b5..c397a63 100644
--- a/src/Utils/par_XOR_1024.c
+++ b/src/Utils/par_XOR_1024.c
@@ -89,7 +89,7 @@ free_par_XOR_1024( void )
 double
 par_XOR_1024_dbl( const uint32_t thread ) 
 {
-  return ( par_XOR_1024( thread ) * 5.421010862427522e-20 ) ;
+  return ( ( par_XOR_1024( thread ) >> 11 ) * 1.1102230246251565e-16 ) ;
 }
 
 // read the MWC table
-- 
2.43.0


From 65520b12f993511ed9e0997f76e3271e00cf88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:58 +0000
Subject: [PATCH 46/56] fix: gaussian numbers were infinite or not a number
 when the uniform ones vanish

---
 src/Utils/par_rng.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 0b28899..eac0b68 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -172,7 +172,7 @@ GLU_real
 par_polar( const uint32_t thread )
 {
   const GLU_real u = par_rng_dbl( thread ) , v = par_rng_dbl( thread ) ;
-  return sqrt( -2. * log( u ) ) * cos( TWOPI * v ) ;
+  return sqrt( -2. * log( 1. - u ) ) * cos( TWOPI * v ) ;
 }
 
 // looks more complicated , is faster.
@@ -182,7 +182,7 @@ par_polar_box( const uint32_t thread )
   register const GLU_real u = (GLU_real)( 2. * par_rng_dbl( thread ) - 1. ) ;
   register const GLU_real v = (GLU_real)( 2. * par_rng_dbl( thread ) - 1. ) ;
   const GLU_real s = u * u + v * v ;
-  return s < 1. ? sqrt( -log( s ) / s ) * ( u + I * v ) : par_polar_box( thread ) ;
+  return ( s > 0. && s < 1. ) ? sqrt( -log( s ) / s ) * ( u + I * v ) : par_polar_box( thread ) ;
 }
 
 // return a double precision number
-- 
2.43.0


From 2fac10946155bb276499f2c1418c693a0e01a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:58 +0000
Subject: [PATCH 47/56] fix: restored generator state was discarded by the next
 initialisation

---
 src/Utils/par_rng.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index eac0b68..1e94092 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -123,7 +123,9 @@ initialise_par_rng( const char *rng_file )
       // free the seeds
       free( Seeds ) ;
     } else {
-      return read_par_rng_state( rng_file ) ;
+      if( read_par_rng_state( rng_file ) == GLU_FAILURE ) {
+	return GLU_FAILURE ;
+      }
     }
     RNG_inited = GLU_TRUE ;
   }
-- 
2.43.0


From 250ef9ab080dfaee507c291616f624fde8f588ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:30 +0000
Subject: [PATCH 48/56] fix: slice by slice configuration writer wrote beyond
 its buffer

---
 src/IO/writers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 48554ef..6d375d8 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -266,7 +266,7 @@ copy_data( GLU_real *uout ,
     grab_sitedata( site , lat[i] , LOOP_VAR , checktype ) ;
 
     // set this up here
-    const size_t val = (size_t)( LOOP_VAR * ( i * ND ) ) ;
+    const size_t val = (size_t)( LOOP_VAR * ( ( i - START ) * ND ) ) ;
     for( size_t j = 0 ; j < ND*LOOP_VAR ; j++ ) {
 #ifdef OUT_DOUBLE
       uout[ val + j ] = (double)site[ j ] ;
-- 
2.43.0


From e6762126f2738cbdb68ba2b71e9728cd6da594b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:31 +0000
Subject: [PATCH 49/56] fix: failure to read a HiRep or CERN configuration was
 ignored

---
 src/IO/read_config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 32a1df3..3c5cb0d 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -159,10 +159,14 @@ get_config_SUNC( FILE *__restrict CONFIG ,
       }
     } break ;
   case HIREP_HEADER : // HIREP uses a weird geometry compared to everyone else
-    read_gauge_field( lat , CONFIG , &chksum ) ;
+    if( read_gauge_field( lat , CONFIG , &chksum ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     return chksum ;
   case CERN_HEADER :
-    read_CLS_field( lat , config_in , &chksum ) ;
+    if( read_CLS_field( lat , config_in , &chksum ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     return chksum ;
   case RANDOM_CONFIG :
     random_suNC( lat ) ;
-- 
2.43.0


From 3b6e8cbe552fef2bb1ab65ed0ee1e6bfd892cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:31 +0000
Subject: [PATCH 50/56] fix: SU(2) HiRep configurations were not written in the
 quaternion form they are read in

---
 src/IO/HIREP.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index 0b58f63..3db100f 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -163,6 +163,17 @@ write_gauge_field( const struct site *__restrict lat ,
     // loop HiRep indices
     const size_t idx = translate_to_GLU_geom( i ) ;
     size_t mu , j , a = 0 ;
+#if NC==2
+    // quaternion representation, as the reader expects it, t first then xyz
+    for( j = 0 ; j < ND ; j++ ) {
+      mu = ( j + ND - 1 ) % ND ;
+      uoutd[ a + 0 ] =  ( double )creal( lat[idx].O[mu][0] ) ;
+      uoutd[ a + 1 ] =  ( double )cimag( lat[idx].O[mu][1] ) ;
+      uoutd[ a + 2 ] = -( double )creal( lat[idx].O[mu][1] ) ;
+      uoutd[ a + 3 ] =  ( double )cimag( lat[idx].O[mu][0] ) ;
+      a += 2*mat_stride ;
+    }
+#else
     // t first
     for( j = 0 ; j < mat_stride ; j++ ) {
       uoutd[ a + 0 ] = ( double )creal( lat[idx].O[ ND - 1 ][ j ] ) ; 
@@ -177,6 +188,7 @@ write_gauge_field( const struct site *__restrict lat ,
 	a += 2 ;
       }
     } 
+#endif
     #ifdef OUT_BIG
     if( !WORDS_BIGENDIAN ) {
       bswap_64( stride , uoutd ) ; 
-- 
2.43.0


From 3fb766af71e3c9f251a30beb05748768f15425f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:57 +0000
Subject: [PATCH 51/56] fix: BQCD checksum of a double precision configuration
 read an unallocated buffer

---
 src/IO/readers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IO/readers.c b/src/IO/readers.c
index 5022953..429726b 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -213,8 +213,8 @@ lattice_reader_suNC( struct site *lat ,
       size_t i ;
       for( i = 0 ; i < LVOLUME ; i++ ) {
 	// BQCD's
-	CKSUM_ADD( ( uin + ( i * ND * LOOP_VAR ) ) , 
-		   sizeof(float) * ND * LOOP_VAR ) ;
+	CKSUM_ADD( ( uind + ( i * ND * LOOP_VAR ) ) , 
+		   sizeof(double) * ND * LOOP_VAR ) ;
       }
       uint32_t nbytes ;
       CKSUM_GET( &CRC_BQCD , &nbytes ) ;
-- 
2.43.0


From b694d775b88be0cddffc9d289f8c21e8ed95607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:31 +0000
Subject: [PATCH 52/56] fix: BQCD checksum carried on from the configuration
 read before

---
 src/Headers/crc.h | 7 +++++++
 src/IO/crc.c      | 8 ++++++++
 src/IO/readers.c  | 2 ++
 3 files changed, 17 insertions(+)

diff --git a/src/Headers/crc.h b/src/Headers/crc.h
index ec902aa..f803b26 100755
--- a/src/Headers/crc.h
+++ b/src/Headers/crc.h
@@ -45,6 +45,13 @@ void
 CKSUM_ADD( void *memptr , 
 	   const uint32_t nbytes ) ;
 
+/**
+   @fn void CKSUM_RESET( void )
+   @brief start BQCD's crc afresh
+ */
+void 
+CKSUM_RESET( void ) ;
+
 /**
    @fn void CKSUM_GET( uint32_t *total_crc, uint32_t *total_bytes ) ;
    @brief BQCD's crc
diff --git a/src/IO/crc.c b/src/IO/crc.c
index 3217901..a2bce65 100755
--- a/src/IO/crc.c
+++ b/src/IO/crc.c
@@ -236,6 +236,14 @@ CKSUM_ADD( void *memptr , const INT8 nbytes )
   return ;
 }
 
+void
+CKSUM_RESET( void )
+{
+  the_crc = 0 ;
+  the_bytes = 0 ;
+  return ;
+}
+
 void 
 CKSUM_GET( INT8 *total_crc , INT8 *total_bytes )
 {
diff --git a/src/IO/readers.c b/src/IO/readers.c
index 429726b..29f1e3c 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -178,6 +178,7 @@ lattice_reader_suNC( struct site *lat ,
 				HEAD_DATA.config_type ) == GLU_FAILURE ) {
     return GLU_FAILURE ;
   }
+  CKSUM_RESET( ) ;
 
   static double *uind , *p ; 
   static float *uin , *q ; 
@@ -366,6 +367,7 @@ lattice_reader_suNC_cheaper( struct site *lat ,
 				HEAD_DATA.config_type ) == GLU_FAILURE ) {
     return GLU_FAILURE ;
   }
+  CKSUM_RESET( ) ;
 
   static double *uind , *p ; 
   static float *uin , *q ; 
-- 
2.43.0


From 2da6a80555ea76a654eb8f648bf3c1bf0d1fe080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:31 +0000
Subject: [PATCH 53/56] fix: MILC header contained uninitialised memory

---
 src/IO/write_headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/write_headers.c b/src/IO/write_headers.c
index c7bd907..54f1c84 100755
--- a/src/IO/write_headers.c
+++ b/src/IO/write_headers.c
@@ -58,7 +58,7 @@ write_header_MILC( FILE *__restrict out ,
   for (int i = 0; i < ND; i ++) dims[i] = Latt.dims[i];
   swap_and_write_int( out , dims , ND ) ;
 
-  char str[ 64 ] ;
+  char str[ 64 ] = { 0 } ;
   sprintf( str , "%s GMT" , get_date( ) ) ;
   fprintf( stdout , "[IO] MILC time %s\n" , str ) ;
   fwrite( str , sizeof( char ) , 64 , out ) ;
-- 
2.43.0


From f5910b8c54368994c897e3206db68005c15d761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:31 +0000
Subject: [PATCH 54/56] fix: NERSC configurations written with sequence number
 zero could not be read

---
 src/IO/read_headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/read_headers.c b/src/IO/read_headers.c
index 3105066..b9a399e 100755
--- a/src/IO/read_headers.c
+++ b/src/IO/read_headers.c
@@ -248,7 +248,7 @@ get_header_data_NERSC( FILE *CONFIG ,
   if( str == NULL ) { str = "(not specified)" ; }
 
   size_t i = get_size_t( "SEQUENCE_NUMBER" , hdr , &Latt.flow ) ; 
-  if( i != 0 || Latt.flow == 0 ) {
+  if( i != 0 ) {
     fprintf( stderr , "[IO] Unknown sequence number.... \n" ) ; 
     return GLU_FAILURE ;
   }
-- 
2.43.0


From 13cf754ce4511fe1d7d4fef99c4ce5544dfa75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:31 +0000
Subject: [PATCH 55/56] fix: configurations that could not be written were
 reported as written

---
 src/Wrappers/GLUlib_wrap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index fc10871..45941b1 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -180,9 +180,18 @@ write_configuration( struct site *lat ,
     return GLU_FAILURE ;
   } else {
     FILE *out_config = fopen( outfile , "w" ) ;
-    write_lat( lat , out_config , storage , output_details ) ;
+    if( out_config == NULL ) {
+      fprintf( stderr , "[IO] cannot open %s for writing\n" , outfile ) ;
+      return GLU_FAILURE ;
+    }
+    int flag = write_lat( lat , out_config , storage , output_details ) ;
+    if( ferror( out_config ) ) { flag = GLU_FAILURE ; }
+    if( fclose( out_config ) != 0 ) { flag = GLU_FAILURE ; }
+    if( flag == GLU_FAILURE ) {
+      fprintf( stderr , "[IO] writing of %s failed\n" , outfile ) ;
+      return GLU_FAILURE ;
+    }
     fprintf( stdout , "[IO] Configuration written to %s \n", outfile ) ; 
-    fclose( out_config ) ;
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 8d0405564a58221df2904831b00ab837a052cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:23 +0000
Subject: [PATCH 56/56] fix: CERN configuration that was not written was
 reported as written

---
 src/IO/writers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 6d375d8..2f65016 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -337,6 +337,10 @@ write_lat( struct site *lat ,
   
   // CERN stuff is all handled in CERN.c
   if( type == OUTPUT_CERN ) {
+    if( ND != 4 ) {
+      fprintf( stderr , "[IO] No known CERN format for Nd != 4\n" ) ;
+      return GLU_FAILURE ;
+    }
     printf( "[IO] Writing out in CERN format\n" ) ;
     start_timer() ;
     write_CLS_field( lat , out ) ;
-- 
2.43.0

