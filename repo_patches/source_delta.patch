From 5275770fd327b83476d46207cd2d10e19a6f65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 01/61] fix: predict into output buffers of any alignment

---
 src/activation.c        |  8 ++++----
 src/matrix_operations.c | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 90effd3..bfa84e7 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -548,8 +548,8 @@ static void tanh_act( const int n, float *y )
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(y + i);
-        YMM1 = _mm256_load_ps(y + i + 8);
+        YMM0 = _mm256_loadu_ps(y + i);
+        YMM1 = _mm256_loadu_ps(y + i + 8);
         YMM0 = _mm256_mul_ps(neg_two, YMM0);
         YMM1 = _mm256_mul_ps(neg_two, YMM1);
         YMM2 = _mm256_add_ps(one, exp256_ps(YMM0));
@@ -558,8 +558,8 @@ static void tanh_act( const int n, float *y )
         YMM3 = _mm256_div_ps(two, YMM3);
         YMM2 = _mm256_add_ps(neg_one, YMM2);
         YMM3 = _mm256_add_ps(neg_one, YMM3);
-        _mm256_store_ps(y + i, YMM2);
-        _mm256_store_ps(y + i + 8, YMM3);
+        _mm256_storeu_ps(y + i, YMM2);
+        _mm256_storeu_ps(y + i + 8, YMM3);
     }
 #endif  /* __AVX2__ */
     for( ; i < n; i++ )
diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 21ea4be..21ac23d 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -128,12 +128,12 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 
 #ifdef __AVX512F__
     for (; i <= ((m)-16) ; i += 16, bias_ptr +=16, y_ptr +=16 ){
-        _mm512_store_ps( y_ptr, _mm512_load_ps( bias_ptr ));
+        _mm512_storeu_ps( y_ptr, _mm512_load_ps( bias_ptr ));
     }
 #endif
 #ifdef __AVX__
     for (; i <= ((m)-8) ; i += 8, bias_ptr +=8, y_ptr +=8 ){
-        _mm256_store_ps( y_ptr, _mm256_load_ps( bias_ptr ));
+        _mm256_storeu_ps( y_ptr, _mm256_load_ps( bias_ptr ));
     }
 #endif
     for( ; i < m; i++ ){
@@ -149,11 +149,11 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 int j = 0;
 #ifdef __AVX512F__
                 for (; j <= ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16) 
-                    _mm512_store_ps(y_ptr, _mm512_add_ps (_mm512_load_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps (_mm512_loadu_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
 #endif /*  __AVX512F__ */
 #ifdef __AVX__
                 for (; j <= ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8) 
-                    _mm256_store_ps(y_ptr, _mm256_add_ps (_mm256_load_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps (_mm256_loadu_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
 #endif /*  __AVX__ */
                 for( ; j < m; j++ )
                     *y_ptr++ += *weight_ptr++;
@@ -162,9 +162,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 #ifdef __AVX512F__
                 for (; j < ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16){
 #if defined(__FMA__)
-                    _mm512_store_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_load_ps(y_ptr)));
+                    _mm512_storeu_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_loadu_ps(y_ptr)));
 #else
-                    _mm512_store_ps(y_ptr, _mm512_add_ps(_mm512_load_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps(_mm512_loadu_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
 #endif  
                 }
 #endif
@@ -172,9 +172,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 __m256 scalevec = _mm256_set1_ps(inp);
                 for (; j < ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8){
 #if defined(__FMA__)
-                    _mm256_store_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_load_ps(y_ptr)));
+                    _mm256_storeu_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_loadu_ps(y_ptr)));
 #else
-                    _mm256_store_ps(y_ptr, _mm256_add_ps(_mm256_load_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps(_mm256_loadu_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
 #endif  
                 }
 #endif
-- 
2.43.0


From 25cc3ae55b37d7c7671be1ccfbddfae206e1c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 02/61] fix: BLAS batch prediction of a sample wider than the
 work memory

---
 src/neuralnet_predict_batch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 6b52cc7..cfb0deb 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -56,6 +56,10 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
 #endif
 
     if( N_STACK_ALLOC_FLOATS < workmem_sz ){
+        if( n_samples == 1 ){ /* A single sample cannot be split any further */
+            neuralnet_predict( nn, inputs, output );
+            return;
+        }
         int half = n_samples >> 1;
         const int n_inputs = nn->layer[0].n_input;
         const int n_output = nn->layer[nn->n_layers-1].n_output;
-- 
2.43.0


From 5f6610e62753a8928a594169482b409091902207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 03/61] fix: derivative and backward kernels accept vectors of
 any alignment

---
 src/activation.c        | 36 ++++++++++++++++++------------------
 src/matrix_operations.c |  8 ++++----
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index bfa84e7..3b0314e 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -651,8 +651,8 @@ static void relu_derivative        ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
         
         YMM0 = _mm256_cmp_ps(YMM0, zero, _CMP_LE_OS);
         YMM1 = _mm256_cmp_ps(YMM1, zero, _CMP_LE_OS);
@@ -660,11 +660,11 @@ static void relu_derivative        ( const int n, const float *activation, float
         YMM0 = _mm256_blendv_ps( ones, zero, YMM0);
         YMM1 = _mm256_blendv_ps( ones, zero, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -681,8 +681,8 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM2 = _mm256_sub_ps( ones, YMM0 );
         YMM3 = _mm256_sub_ps( ones, YMM1 );
@@ -690,11 +690,11 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
         YMM0 = _mm256_mul_ps(YMM0, YMM2);
         YMM1 = _mm256_mul_ps(YMM1, YMM3);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -710,8 +710,8 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM0 = _mm256_mul_ps(YMM0, YMM0);
         YMM1 = _mm256_mul_ps(YMM1, YMM1);
@@ -719,11 +719,11 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
         YMM0 = _mm256_sub_ps(ones, YMM0);
         YMM1 = _mm256_sub_ps(ones, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for( ; i < n; i++ )
diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 21ac23d..a2ee8e1 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -49,9 +49,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m512 sums = _mm512_setzero_ps ();
         for (; j <= ((n_cols)-16); j += 16, m_ptr += 16, v_ptr += 16){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr), sums);
+            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr), sums);
 #else
-            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr)));
+            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr)));
 #endif
         }
         y[i] = _mm512_reduce_add_ps( sums );
@@ -60,9 +60,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m256 sum = _mm256_setzero_ps ();
         for (; j <= ((n_cols)-8); j += 8, m_ptr += 8, v_ptr += 8){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr), sum);
+            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr), sum);
 #else
-            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr)));
+            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr)));
 #endif
         }
         y[i] += horizontalsum_avx( sum );
-- 
2.43.0


From 7e1d9cafbfe1e54a94bcbe501da7b8fe5a853104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 04/61] fix: absolute percentage error loss is relative to the
 magnitude of the target

---
 src/loss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loss.c b/src/loss.c
index 880d253..6a47467 100644
--- a/src/loss.c
+++ b/src/loss.c
@@ -76,7 +76,7 @@ static void mean_absolute_error( unsigned int n, const float *y_pred, const floa
 static void mean_absolute_percentage_error( unsigned int n, const float *y_pred, const float *y_real, float *loss )
 {
     for( unsigned int i = 0; i < n; i++ )
-        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmax(y_real[i], 1e-7f) * (float) n);
+        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmaxf(fabsf(y_real[i]), 1e-7f) * (float) n);
 }
 
 static void categorical_crossentropy( unsigned int n, const float *y_pred, const float *y_real, float *loss )
-- 
2.43.0


From 0584b9a891e516ae636e9702c884dfdc23f053c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 05/61] fix: absolute percentage error metric is relative to
 the magnitude of the target

---
 src/metrics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics.c b/src/metrics.c
index d1b286e..b3cbf57 100644
--- a/src/metrics.c
+++ b/src/metrics.c
@@ -87,7 +87,7 @@ static float mean_absolute_percentage_error(const int n, const float *y_pred, co
 {
     float diff = 0.0f;
     for( int i = 0; i < n; i++ )
-        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( y_real[i], epsilon ));
+        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( fabsf( y_real[i] ), epsilon ));
 
     return 100.0f * diff / (float) n;
 }
-- 
2.43.0


From 08beb09a80ce05bc173e0bb5d1d79021322522c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 06/61] fix: binary accuracy clips the prediction like it clips
 the target

---
 src/metrics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics.c b/src/metrics.c
index b3cbf57..6f8c19a 100644
--- a/src/metrics.c
+++ b/src/metrics.c
@@ -128,7 +128,7 @@ static float binary_accuracy( const int n, const float *y_pred, const float *y_r
     float sum = 0.0f;
     for( int i = 0; i < n; i++ ){
         float real = roundf(fmin( fmax( y_real[i], 0.0f ) , 1.0f ));
-        float pred = roundf( y_pred[i] );
+        float pred = roundf(fmin( fmax( y_pred[i], 0.0f ) , 1.0f ));
         sum += real == pred ? 1.0f : 0.0f;
     }
     return sum / n;
-- 
2.43.0


From 3107c8c1b6ab4f7ddbace28975fc098f1b6944be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 07/61] fix: softplus and its derivative are accurate and
 finite for all inputs

---
 src/activation.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 3b0314e..04b268c 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -576,7 +576,7 @@ static void exponential( const int n, float *ar )
 static void softplus( const int n, float *ar )
 {
     for( int i = 0; i < n; i++ )
-        ar[i] = logf( expf(ar[i]) + 1.0f ) ;
+        ar[i] = fmaxf( ar[i], 0.0f ) + log1pf( expf( -fabsf(ar[i]) ) );  /* log(exp(x)+1) without overflow */
 }
 
 static void softsign( const int n, float *ar )
@@ -596,10 +596,8 @@ static void hard_sigmoid( const int n, float *ar )
 #ifndef PREDICTION_ONLY
 static void softplus_derivative    ( const int n, const float *activation, float *ar )
 {
-    for( int i=0; i < n; i++ ){
-        float x =  expf( activation[i] );
-        ar[i] *= (x - 1.0f) / x; 
-    }
+    for( int i=0; i < n; i++ )
+        ar[i] *= -expm1f( -activation[i] );
 }
 
 static void softsign_derivative    ( const int n, const float *activation, float *ar )
-- 
2.43.0


From e4798cb675376e2e6cbb7bc6836bc5224a2107ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 08/61] fix: running out of memory in neuralnet_create frees
 uninitialised pointers

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 0106850..508abf1 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -647,7 +647,7 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
 
     nn->n_layers = n_layers;
     /* The layers vector is also nice to do unaligned */
-    nn->layer = malloc( n_layers * sizeof( layer_t ));
+    nn->layer = calloc( n_layers, sizeof( layer_t ));  /* (the clean up on failure relies on NULL pointers) */
     if ( !(nn->layer)){
         fprintf( stderr, "Cannot allocate memory for neural neworks layers.\n");
         free( nn );
-- 
2.43.0


From 0537426b37c9450c26c988d7411d513b4a9dec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 09/61] fix: refuse layers whose number of weights overflows

---
 src/neuralnet.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 508abf1..2b175da 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -18,6 +18,7 @@
 #include <stdarg.h>
 #include <stdbool.h>
 #include <math.h>
+#include <limits.h>
 #include <assert.h>
 
 #if defined(VERBOSE) 
@@ -67,14 +68,15 @@ static void _weights_memory_free( neuralnet_t *nn )
 static bool _weights_memory_allocate( neuralnet_t *nn )
 {
     for ( int i = 0; i < nn->n_layers; i++ ){
-        if( (nn->layer[i].n_input < 1) || nn->layer[i].n_output < 1){
+        if( (nn->layer[i].n_input < 1) || nn->layer[i].n_output < 1 ||
+            nn->layer[i].n_input >= INT_MAX / nn->layer[i].n_output ){  /* n_param must fit an int */
             fprintf( stderr, "Bad neural network dimensions. Can't allocate memory\n" );
             return false;
         }
     }
 
     for ( int i = 0; i < nn->n_layers; i++ ){
-        if (NULL == (nn->layer[i].weight = simd_malloc( nn->layer[i].n_input * nn->layer[i].n_output * sizeof( float ))))
+        if (NULL == (nn->layer[i].weight = simd_malloc( (size_t) nn->layer[i].n_input * nn->layer[i].n_output * sizeof( float ))))
             goto weight_alloc_error;
     }
 
-- 
2.43.0


From 23013a2532b0a8c57200ca48058c450c71bec440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 10/61] fix: create a network without any activation names

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 2b175da..759cdd8 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -670,7 +670,7 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
 
     /* Set the activation functions */
     for( int i = 0; i < nn->n_layers; i++ ){
-        const char *func_name = activation_funcs[i];
+        const char *func_name = activation_funcs ? activation_funcs[i] : NULL;
         nn->layer[i].activation_func = get_activation_func( func_name ? func_name : "linear" );
         /* This is really an important test as it catches typos in the list of activations.
          * (Which is a common human error) Do not remove this test! */
-- 
2.43.0


From 7e92617c89ec4da4a7713abd7d8f962ef221a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 11/61] fix: normal distributed initial weights could be NaN

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 759cdd8..db14bfa 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -708,7 +708,7 @@ static float random_normal()
             v = random_uniform();  /* from -1 to +1 */
 
             S = u*u + v*v;
-        } while (S >= 1.0f);
+        } while (S >= 1.0f || S == 0.0f);  /* log(0) */
 
         fac = sqrtf( -2.0f * logf(S) / S );
         Z = u * fac;
-- 
2.43.0


From 45df9b64105f8e24a052432e4ec07b6e3f04d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 12/61] fix: weight initialization depends only on the seed

---
 src/neuralnet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index db14bfa..e7f6d9e 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -695,10 +695,12 @@ static float random_uniform()
     return (float) 2.0f * (rand() / (float) RAND_MAX) - 1.0f;
 }
 
+/* The polar method makes two values at the time, the second is kept for the next call. */
+static bool use_prev = false;
+
 static float random_normal()
 {
     static float v, fac;
-    static bool use_prev = false;
     float S, Z, u;
     if(use_prev)
         Z = v * fac;
@@ -732,6 +734,7 @@ static void fill_data( unsigned int n, float (*dist)(), float scale, float *data
 void neuralnet_initialize( neuralnet_t *nn, char *initializers[] )
 {
     assert( nn );
+    use_prev = false;  /* do not depend on what was initialized earlier */
 
     for ( int i = 0; i < nn->n_layers ; i++ ){
         const int n_inp = nn->layer[i].n_input;
-- 
2.43.0


From afc7796a51cbbfc08d9a28cf09684c801ace2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 13/61] fix: a missing initializer name selects the initializer
 by activation

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index e7f6d9e..84545ee 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -741,7 +741,7 @@ void neuralnet_initialize( neuralnet_t *nn, char *initializers[] )
         const int n_out = nn->layer[i].n_output;
 
         char *initializer = "";
-        if( initializers )
+        if( initializers && initializers[i] )
             initializer = initializers[i];
 
         if( streq( initializer, "xavier" ))
-- 
2.43.0


From 1744f205fe403e5746296096b4d09888a82f04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 14/61] fix: header lengths with a byte above 127 are read as
 negative

---
 npy_array/npy_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b8f3cf9..e4a99d7 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -179,8 +179,8 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME! This may fail for version 2 and it may also fail on big endian systems.... */
     uint16_t header_length = 0;
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
     
     char header[header_length + 1];
     chk = read_func( fp, header, header_length );
-- 
2.43.0


From d08635c12e45efae44c677ea9a286b227b00189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 15/61] fix: arrays with eight dimensions or a dimension of
 size zero

---
 npy_array/npy_array.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index e4a99d7..c5db55e 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -135,9 +135,8 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
 size_t npy_array_calculate_datasize( const npy_array_t *m )
 {
     size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 && (idx < m->ndim) )
-        n_elements *= m->shape[ idx++ ];
+    for( int idx = 0; idx < m->ndim; idx++ )
+        n_elements *= m->shape[ idx ];
     return n_elements * m->elem_size;
 }
 
@@ -236,18 +235,15 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
             shape++;
             continue;
         }
+        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
         m->shape[m->ndim] = strtol( shape, &shape, 10);
         m->ndim++;
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
     }
 
-    size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 )
-        n_elements *= m->shape[ idx++ ];
+    const size_t datasize = npy_array_calculate_datasize( m );
 
 #if VERBOSE
-    printf("Number of elements: %llu\n", (unsigned long long) n_elements );
+    printf("Number of elements: %llu\n", (unsigned long long) (datasize / m->elem_size) );
 #endif
     m->map_addr = NULL;
     if( read_func == read_mapped ){
@@ -257,15 +253,15 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         return m;
     }
 
-    m->data = malloc( n_elements * m->elem_size );
+    m->data = malloc( datasize ? datasize : 1 );
     if ( !m->data ){
         fprintf(stderr, "Cannot allocate memory for matrix data.\n");
         free( m );
         return NULL;
     }
 
-    chk = read_func( fp, m->data, m->elem_size * n_elements ); /* Can the multiplication overflow? */ 
-    if( chk != m->elem_size * n_elements){
+    chk = read_func( fp, m->data, datasize );
+    if( chk != datasize ){
         fprintf(stderr, "Could not read all data.\n");
         free( m->data );
         free( m );
-- 
2.43.0


From 33672e4876712da91cd1192fa0518e41e06bd665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 16/61] fix: malformed array headers are refused instead of
 aborting or overflowing

---
 npy_array/npy_array.c | 48 +++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index c5db55e..d629ce5 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -43,6 +43,7 @@ IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <sys/mman.h>
 #include <string.h>
 #include <ctype.h>
+#include <stdint.h>
 #include <assert.h>
 
 #define NPY_ARRAY_MAGIC_STRING {0x93,'N','U','M','P','Y'}
@@ -199,26 +200,33 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     char *descr   = find_header_item("'descr': '", header);
-    assert(descr);
-    if ( strchr("<>|", descr[0] ) ){
+    if( !descr )
+        goto bad_header;
+    if ( descr[0] && strchr("<>|", descr[0] ) ){
         m->endianness = descr[0];
         if( descr[0] != '|' && ( descr[0] != endianness())){
             fprintf(stderr, "Warning: Endianess of system and file does not match.");
         }
     } else {
-        fprintf(stderr,"Warning: Endianness not found.");
+        fprintf(stderr,"Endianness not found.\n");
+        goto bad_header;
     }
 
-    /* FIXME Potential bug: Is the typechar always one byte? */
+    /* Only types with a one byte typechar are supported. Unicode strings ('U') count their size in
+       characters, and the element size of other types (like dates with a unit) can't be described. */
     m->typechar = descr[1];
+    if( !isalpha( (unsigned char) m->typechar ) || m->typechar == 'U' || !isdigit( (unsigned char) descr[2] ))
+        goto bad_header;
 
-    /* FIXME: Check the **endptr (second argument which is still NULL here)*/
-    m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
-    assert( m->elem_size > 0 );
+    char *endptr;
+    m->elem_size = (size_t) strtoull( &descr[2], &endptr, 10);
+    if( m->elem_size == 0 || *endptr != '\'' )
+        goto bad_header;
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *fortran = find_header_item("'fortran_order': ", header);
-    assert( fortran );
+    if( !fortran )
+        goto bad_header;
 
     if(strncmp(fortran, "True", 4) == 0 )
         m->fortran_order = true;
@@ -229,15 +237,24 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *shape   = find_header_item("'shape': ", header);
-    assert(shape);
+    if( !shape )
+        goto bad_header;
+    size_t max_elements = PTRDIFF_MAX / m->elem_size;  /* ... such that the size of the data does not overflow */
     while (*shape != ')' ) {
-        if( !isdigit( (int) *shape ) ){
+        if( *shape == '\0' || *shape == '-' )
+            goto bad_header;
+        if( !isdigit( (unsigned char) *shape ) ){
             shape++;
             continue;
         }
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
-        m->shape[m->ndim] = strtol( shape, &shape, 10);
-        m->ndim++;
+        if( m->ndim == NPY_ARRAY_MAX_DIMENSIONS )
+            goto bad_header;
+        size_t dim = strtoull( shape, &shape, 10);
+        if( dim > max_elements )
+            goto bad_header;
+        if( dim > 0 )
+            max_elements /= dim;
+        m->shape[m->ndim++] = dim;
     }
 
     const size_t datasize = npy_array_calculate_datasize( m );
@@ -268,6 +285,11 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         return NULL;
     }
     return m;
+
+bad_header:
+    fprintf(stderr, "Malformed or unsupported header in numpy array.\n");
+    free( m );
+    return NULL;
 }
 
 npy_array_t * npy_array_load( const char *filename )
-- 
2.43.0


From f1223ea3cca0412e2920de2abac98e0c42b768f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 17/61] fix: memory mapping refuses files that are too short

---
 npy_array/npy_array.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index d629ce5..51d9cb2 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -265,6 +265,11 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->map_addr = NULL;
     if( read_func == read_mapped ){
         map_handler_t *mh = (map_handler_t*) fp;
+        if( datasize > mh->length - (mh->current_pos - mh->start_pos) ){
+            fprintf(stderr, "File is too short for the data of the array.\n");
+            free( m );
+            return NULL;
+        }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
         return m;
@@ -317,7 +322,7 @@ static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes )
     size_t bytes_to_read = bytes_left > nbytes ? nbytes : bytes_left;
     memcpy( buffer, mh->current_pos, bytes_to_read );
     mh->current_pos += bytes_to_read;
-    return (int64_t) nbytes;
+    return (int64_t) bytes_to_read;
 }
 
 npy_array_t * npy_array_mmap( const char *filename )
-- 
2.43.0


From fdee980ba3cb75d216d5a05bdbd24e8847d30954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 18/61] fix: freeing a mapped array releases the whole mapping

---
 npy_array/npy_array.c | 15 ++++-----------
 npy_array/npy_array.h |  1 +
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 51d9cb2..aef91a4 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -272,6 +272,7 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
+        m->map_length = mh->length;
         return m;
     }
 
@@ -405,17 +406,9 @@ void npy_array_free( npy_array_t *m )
         return;
     }
 
-    if( m->map_addr ){
-        /* We need the length of the data mapped. We are mapping the whole file, so we have to
-           recalculate the size.  */
-        uint16_t header_length = 0;
-        char *preheader = m->map_addr;
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
-
-        size_t len = NPY_ARRAY_PREHEADER_LENGTH + header_length + npy_array_calculate_datasize(m);
-        munmap( m->map_addr, len );
-    } else
+    if( m->map_addr )
+        munmap( m->map_addr, m->map_length );
+    else
         free( m->data );
 
     free( m );
diff --git a/npy_array/npy_array.h b/npy_array/npy_array.h
index 3c02e01..f3136f8 100644
--- a/npy_array/npy_array.h
+++ b/npy_array/npy_array.h
@@ -55,6 +55,7 @@ typedef struct _npy_array_t {
     bool              fortran_order;
     /* Consider map_addr as a private member. Do modify this pointer! Used for unmap() */
     void             *map_addr;      /* pointer to the map if array is mmap()'ed -- else NULL */
+    size_t            map_length;    /* length of the map (private as well) */
 } npy_array_t;
 
 
-- 
2.43.0


From a5e70c079450422df1f19c6e79a563ad28f0e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 19/61] fix: dumping an array without dimensions reads outside
 the shape

---
 npy_array/npy_array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index aef91a4..44a1f12 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -362,7 +362,8 @@ void npy_array_dump( const npy_array_t *m )
     printf("Dimensions   : %d\n", m->ndim);
     printf("Shape        : ( ");
     for( int i = 0; i < m->ndim - 1; i++) printf("%d, ", (int) m->shape[i]);
-    printf("%d )\n", (int) m->shape[m->ndim-1]);
+    if( m->ndim > 0 ) printf("%d ", (int) m->shape[m->ndim-1]);
+    printf(")\n");
     printf("Type         : '%c' ", m->typechar);
     printf("(%d bytes each element)\n", (int) m->elem_size);
     printf("Fortran order: %s\n", m->fortran_order ? "True" : "False" );
-- 
2.43.0


From a610becc3ad368859255b07181f9502862fffa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 20/61] fix: npy_array_save reports data that could not be
 written

---
 npy_array/npy_array.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 44a1f12..9aac11a 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -397,7 +397,10 @@ void npy_array_save( const char *filename, const npy_array_t *m )
     if( chk != datasize){
         fprintf(stderr, "Could not write all data.\n");
     }
-    fclose(fp);
+    if( fclose(fp) != 0 ){
+        fprintf(stderr, "Could not write all data.\n");
+        perror("Error");
+    }
 }
 
 void npy_array_free( npy_array_t *m )
-- 
2.43.0


From 7d3cd2f6b1742ca32eba3645283806c6aaf7c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 21/61] fix: headers of arrays with long shapes

---
 npy_array/npy_array.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 9aac11a..004b01d 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -98,7 +98,7 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     char *ptr = shape;
 
     for( int i = 0; i < m->ndim; i++)
-        ptr += sprintf(ptr, "%d,", (int) m->shape[i]);
+        ptr += sprintf(ptr, "%zu,", m->shape[i]);
     assert( ptr - shape < NPY_ARRAY_SHAPE_BUFSIZE );
 
     /* Potential bug? There are some additional whitespaces after the dictionaries saved from
@@ -109,10 +109,9 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
        It is terminated by a newline (\n) and padded with spaces (\x20) to make the total of:
        len(magic string) + 2 + len(length) + HEADER_LEN be evenly divisible by 64 for alignment purposes.
 
-       ... which sounds smart enough for me, and with some reverse engineering it looks like HEADER_LEN is 108.
+       ... which sounds smart enough for me. Most headers fit in a total of 128 bytes.
 
      */
-#define HEADER_LEN 108
     /* WARNING: This code looks inocent and simple, but it was really a struggle. Do not touch unless you like pain! */
     size_t len = sprintf(dict, "{'descr': '%c%c%zu', 'fortran_order': %s, 'shape': (%s), }",
             _guess_endianness( m ),
@@ -121,8 +120,10 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
             m->fortran_order ? "True": "False",
             shape );
 
-    assert( len < HEADER_LEN ); /* FIXME: This can go wrong for really big arrays with a lot of dimensions */
-    len += sprintf( dict + len, "%*s\n", (int) (HEADER_LEN - len + NPY_ARRAY_PREHEADER_LENGTH - 1), " " );
+    size_t total = (NPY_ARRAY_PREHEADER_LENGTH + len + 2 + 63) / 64 * 64;  /* at least one space and the newline */
+    if( total < 128 )
+        total = 128;
+    len += sprintf( dict + len, "%*s\n", (int) (total - NPY_ARRAY_PREHEADER_LENGTH - len - 1), " " );
 
     const uint16_t _len = (uint16_t) (len);
     memcpy( p, &_len, sizeof(uint16_t));
@@ -130,7 +131,6 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     memcpy( p, dict, len);
 
     return len + NPY_ARRAY_PREHEADER_LENGTH;
-#undef HEADER_LEN
 }
 
 size_t npy_array_calculate_datasize( const npy_array_t *m )
-- 
2.43.0


From 1dcd9bc0c6633b665bbc5fefc0811b849c4e8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 22/61] fix: names in an archive are not format strings

---
 npy_array/npy_array_list.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 73663fa..53584b2 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -220,7 +220,8 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             fprintf(stderr, "Warning: Cannot read matrix.\n");
             continue;
         }
-        list = npy_array_list_append( list, arr, zip_get_name( zip, i, 0 ));
+        const char *name = zip_get_name( zip, i, 0 );
+        list = npy_array_list_append( list, arr, "%s", name ? name : "" );
     }
 
     zip_close(zip);
-- 
2.43.0


From a4445232702f8301a5a32f2c53d54c4370b07e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 23/61] fix: too long names in an array list abort the program

---
 npy_array/npy_array_list.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 53584b2..9f39717 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -87,9 +87,8 @@ static char * _va_args_filename( const char *filename, va_list ap1 )
     }
 
     char *real_filename = malloc( (len+1) * sizeof(char));
-    assert( real_filename );
-
-    vsprintf( real_filename, filename, ap2 );
+    if( real_filename )
+        vsprintf( real_filename, filename, ap2 );
     va_end( ap2 );
 
     return real_filename;
@@ -124,7 +123,6 @@ npy_array_list_t * npy_array_list_ ##oper ( npy_array_list_t *list, npy_array_t
     va_list ap1; \
     va_start( ap1, filename ); \
     new_list->filename = _va_args_filename( filename, ap1 ); \
-    assert( new_list->filename ); \
     va_end( ap1 ); \
 \
     return _list_ ##oper ( list, new_list ); \
@@ -162,8 +160,7 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
             /* what is wrong? */
         }
-        /* if the filename is not set, set one. However.. if the list was created with append and prepend,
-         * this will never be true. */
+        /* if the filename is not set (or it was too long), set one. */
         if(!iter->filename)
             iter->filename = _new_internal_filename( n );
 
-- 
2.43.0


From 9434f29008d0fcb4b1d7e000eeb2542c89025246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 24/61] fix: archives that cannot be written as requested are
 reported, compression is honoured

---
 npy_array/npy_array_list.c | 44 ++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 9f39717..980a247 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -153,13 +153,13 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     /* FIXME: Better test */
     zip_t *zip = zip_open( filename, ZIP_CREATE | ZIP_TRUNCATE, NULL );
-    assert( zip );
+    if( !zip ){
+        fprintf(stderr, "Cannot open archive '%s' for writing.\n", filename );
+        return 0;
+    }
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
-        if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
-            /* what is wrong? */
-        }
         /* if the filename is not set (or it was too long), set one. */
         if(!iter->filename)
             iter->filename = _new_internal_filename( n );
@@ -172,27 +172,49 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         size_t datasize = npy_array_calculate_datasize( m );
 
         char *matrix_npy_format = malloc( hlen + datasize );
-        assert( matrix_npy_format );
+        if( !iter->filename || !matrix_npy_format ){
+            fprintf(stderr, "Cannot allocate memory for writing archive '%s'.\n", filename );
+            free( matrix_npy_format );
+            goto save_error;
+        }
         memcpy( matrix_npy_format, header, hlen );
         memcpy( matrix_npy_format + hlen, m->data, datasize );
 
-        /* FIXME: Check for error */
         zip_source_t *s = zip_source_buffer_create( matrix_npy_format, hlen + datasize, 1, NULL);
-        assert(s); 
+        if( !s ){
+            fprintf(stderr, "Cannot allocate memory for writing archive '%s'.\n", filename );
+            free( matrix_npy_format );
+            goto save_error;
+        }
 
-        int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
-        if( idx != n )
-            fprintf( stderr, "Warning: Index and counter mismatch.");
+        zip_int64_t idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
+        if( idx < 0 ){
+            fprintf( stderr, "Warning: Cannot add '%s' to archive: %s\n", iter->filename, zip_strerror( zip ));
+            int zip_err = zip_error_code_zip( zip_get_error( zip ));
+            zip_source_free( s );
+            if( zip_err == ZIP_ER_EXISTS )
+                continue;
+            goto save_error;
+        }
 
-        // fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
+        if( zip_set_file_compression( zip, idx, comp, comp_flags ) < 0 ){
+            fprintf( stderr, "Cannot set compression: %s\n", zip_strerror( zip ));
+            goto save_error;
+        }
         
         n++;
     }
     if ( zip_close( zip ) < 0 ){
         fprintf(stderr, "What? no close?\n");
         fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
+        goto save_error;
     }
     return n;
+
+save_error:
+    /* Nothing is written. An archive that already exists is left as it was. */
+    zip_discard( zip );
+    return 0;
 }
 
 npy_array_list_t * npy_array_list_load( const char *filename )
-- 
2.43.0


From 691e96eb3d34c5e45358c452c3dfd87879a942a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:44 +0000
Subject: [PATCH 25/61] fix: archives that do not describe a neural network are
 refused

---
 src/neuralnet.c | 99 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 61 insertions(+), 38 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 84545ee..037cdda 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -94,22 +94,57 @@ weight_alloc_error:
     return false;
 }
 
-static char ** _activation_names_from_npy( npy_array_t *m )
+/* Returns an array of n_layers names, or NULL if memory cannot be allocated. Missing names are NULL. */
+static char ** _activation_names_from_npy( const npy_array_t *m, int n_layers )
 {
-    char ** ret = calloc( m->shape[0], sizeof( char* ));
-    assert( ret );
-    ret[0] = calloc( m->shape[0] * (m->elem_size + 1), sizeof(char) );  /* sizeof(char) is always 1! */
-    assert( ret[0] );
-
-    for( unsigned int i = 1; i < m->shape[0]; i++ )
-        ret[i] = ret[0] + i * (m->elem_size + 1);
+    size_t n_names = m->shape[0] < (size_t) n_layers ? m->shape[0] : (size_t) n_layers;
+    char ** ret = calloc( n_layers, sizeof( char* ) + m->elem_size + 1 );  /* The names follow after the pointers */
+    if( !ret )
+        return NULL;
 
-    char *src = (char*) m->data;
-    for( unsigned int i = 0; i < m->shape[0]; i++, src += m->elem_size )
-        memcpy( ret[i], src, m->elem_size );
+    char *dst = (char*) (ret + n_layers);
+    const char *src = m->data;
+    for( size_t i = 0; i < n_names; i++, src += m->elem_size, dst += m->elem_size + 1 ){
+        memcpy( dst, src, m->elem_size );
+        ret[i] = dst;
+    }
     return ret;
 }
 
+/* Checks that the arrays, in pairs of weight and bias, can be the layers of a neural network. */
+static bool _is_valid_layers( npy_array_t **weights_and_biases, int n_arrays )
+{
+    if( n_arrays < 2 || n_arrays % 2 ){
+        fprintf( stderr, "There should be one weight and one bias array for each layer. (%d arrays found)\n", n_arrays );
+        return false;
+    }
+
+    const int val = 1;
+    const char native = (*(const char *)&val == 1) ? '<' : '>';
+    for( int i = 0; i < n_arrays; i++ ){
+        const npy_array_t *m = weights_and_biases[i];
+        const int layer = i / 2;
+        if( m->elem_size != sizeof(float) || m->endianness != native || m->fortran_order ){
+            fprintf( stderr, "Array in layer %d is not row-major float32 of native byte order.\n", layer );
+            return false;
+        }
+        if( i % 2 == 0 ){
+            if( m->ndim != 2 || m->shape[0] > INT_MAX || m->shape[1] > INT_MAX ){
+                fprintf( stderr, "Weight array is not a usable 2-dimensional matrix in layer %d (It's %dD!)\n", layer, m->ndim );
+                return false;
+            }
+            if( i > 0 && m->shape[0] != weights_and_biases[i-2]->shape[1] ){
+                fprintf( stderr, "Weight size mismatch between layer %d and %d.\n", layer - 1, layer );
+                return false;
+            }
+        } else if( m->ndim != 1 || m->shape[0] != weights_and_biases[i-1]->shape[1] ){
+            fprintf( stderr, "Bias size does not match weight size in layer %d.\n", layer );
+            return false;
+        }
+    }
+    return true;
+}
+
 /**
   @brief Create a new neural network based on specifications in file.
   @param filename Filename to neural network file.
@@ -120,6 +155,7 @@ neuralnet_t *neuralnet_load( const char *filename)
     npy_array_list_t  *array_list          = NULL;
     npy_array_t      **weights_and_biases  = NULL;
     char             **activation_funcs    = NULL;
+    npy_array_t       *names               = NULL;
     int                wb_idx              = 0;
     neuralnet_t       *nn                  = NULL;
 
@@ -143,17 +179,25 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *m = iter->array;
         if( m->typechar == 'f' )
             weights_and_biases[wb_idx++] = m;
-        else if( m->typechar == 'S' )
-            activation_funcs = _activation_names_from_npy( m );
+        else if( m->typechar == 'S' && m->ndim == 1 && !names )
+            names = m;
         else {
-            fprintf( stderr, "Element type of numpy array is neither 'float32' or ascii charaters. Cannot open file '%s'.\n", filename );
+            fprintf( stderr, "Element type of numpy array is neither 'float32' or one array of ascii charaters. Cannot open file '%s'.\n", filename );
             goto load_error;
         }
     }
 
-    assert( (wb_idx % 2) == 0 );  /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
+    if( !_is_valid_layers( weights_and_biases, wb_idx )){
+        fprintf( stderr, "The arrays in file '%s' do not describe a neural network.\n", filename );
+        goto load_error;
+    }
 
     int n_layers = wb_idx / 2;
+
+    if( names && !(activation_funcs = _activation_names_from_npy( names, n_layers ))){
+        fprintf( stderr, "Cannot allocate memory for activation names.\n" );
+        goto load_error;
+    }
     {  /* An added scope to please 'goto' */
         int sizearray[ n_layers + 1 ];
         sizearray[0] = weights_and_biases[0]->shape[0];
@@ -175,33 +219,14 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *weights   = weights_and_biases[i*2];
         npy_array_t *bias      = weights_and_biases[i*2+1];
 
-        /* Some basic checks, but just warnings. */
-        if( weights->ndim != 2 )
-            fprintf(stderr, "WARNING: weight npy array not 2-dimensional in layer %d (It's %dD!)\n", i, weights->ndim);
-        if( bias->ndim != 1 )
-            fprintf(stderr, "WARNING: bias npy array not 1-dimensional in layer %d (It's %dD!)\n", i, bias->ndim);
-        if( weights->shape[1] != bias->shape[0] )
-            fprintf(stderr, "WARNING: bias size does not match weight size in layer %d. Weight: (%ld,%ld) Bias (%ld)\n",
-                    i, weights->shape[0], weights->shape[1], bias->shape[0]);
-        if( i > 0 ){
-            if( weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
-                fprintf( stderr, "WARNING: weight size mismatch between layer %d and %d.", (i-1), i );
-                fprintf( stderr, "* Prev layer output size: %ld\n", weights_and_biases[(i-1)*2]->shape[1] ); 
-                fprintf( stderr, "* This layer  input size: %ld\n", weights->shape[0] ); 
-            }
-        }
-
         memcpy( nn->layer[i].weight, weights->data, weights->shape[0] * weights->shape[1] * sizeof(float));
         /* Debug 
         print_matrix( weights->shape[0], weights->shape[1], (float*) weights->data );
         print_matrix( nn->layer[i].n_input, nn->layer[i].n_output, nn->layer[i].weight );
         */
-        memset( nn->layer[i].bias, 0,   nn->layer[i].n_output * sizeof(float));
         memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));
         /* FIXME in far future: If the matrices are fortran order, reorganize them. Hmmm ... maybe
-         * such feature belong in npy_array? */ 
-        assert( weights->fortran_order == false );
-        assert( bias->fortran_order == false );
+         * such feature belong in npy_array? (Such matrices are refused for now.) */ 
     }
 
 load_error:
@@ -209,10 +234,8 @@ load_error:
     if( array_list )        npy_array_list_free( array_list );
     if( weights_and_biases) free( weights_and_biases );
 
-    if( activation_funcs ){
-        free( activation_funcs[0] );
+    if( activation_funcs )
         free( activation_funcs );
-    }
     return nn;
 }
 
-- 
2.43.0


From c0ce197fc9eb6da235bc6fd6adab8ad9055ff6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 26/61] fix: running out of memory while saving a network
 aborts the program

---
 src/neuralnet.c | 59 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 037cdda..f3b0ac5 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -318,6 +318,33 @@ void neuralnet_predict( const neuralnet_t *nn, const float *input, float *out )
 
 #ifndef PREDICTION_ONLY
 #define _MAX_FILENAME_LEN 128
+/* Appends a copy of the array structure (the data is not copied) to the list. Sets *ok to false
+   if there is no memory for the new element. */
+static npy_array_list_t * _list_copy( npy_array_list_t *list, const npy_array_t *array, const char *name, int i, bool *ok )
+{
+    npy_array_t *copy = malloc( sizeof(npy_array_t));
+    if( !copy ){
+        *ok = false;
+        return list;
+    }
+    *copy = *array;
+
+    size_t length = npy_array_list_length( list );
+    list = npy_array_list_append( list, copy, name, i );
+    if( npy_array_list_length( list ) == length ){
+        free( copy );
+        *ok = false;
+        return list;
+    }
+
+    npy_array_list_t *last = list;
+    while( last->next )
+        last = last->next;
+    if( !last->filename )
+        *ok = false;
+    return list;
+}
+
 /**
   @brief: Saves a neural network to the specified filename.
 
@@ -366,26 +393,20 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
     va_end( ap2 );
 
     npy_array_list_t *save = NULL;
+    bool ok = true;
 
     for (int i = 0; i < nn->n_layers ; i++ ){
         /* weight */
-        npy_array_t  *w = calloc( 1, sizeof( npy_array_t ));
-        assert( w );
-        memcpy( w, NPY_ARRAY_BUILDER(
+        save = _list_copy( save, NPY_ARRAY_BUILDER(
                     nn->layer[i].weight,
                     SHAPE( nn->layer[i].n_input, nn->layer[i].n_output),
                     NPY_DTYPE_FLOAT32),
-                sizeof(npy_array_t));
-        save = npy_array_list_append( save, w, "weight_%d", i );
+                "weight_%d", i, &ok );
         /* bias */
-        npy_array_t *b = calloc( 1, sizeof( npy_array_t ));
-        assert( b );
-        memcpy( b, NPY_ARRAY_BUILDER(
-                nn->layer[i].bias,
-                SHAPE( nn->layer[i].n_output), NPY_DTYPE_FLOAT32),
-                sizeof(npy_array_t));
-
-        save = npy_array_list_append( save, b, "bias_%d", i );
+        save = _list_copy( save, NPY_ARRAY_BUILDER(
+                    nn->layer[i].bias,
+                    SHAPE( nn->layer[i].n_output), NPY_DTYPE_FLOAT32),
+                "bias_%d", i, &ok );
         /* Note: The npy_arrays have to be allocated and copied.
            They are automatic stack allocated and they go out of scope
            when leaving the for-loop */
@@ -410,15 +431,17 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
         memcpy( ptr, activation_name, len );
     }        
 
-    npy_array_t *a = malloc( sizeof(npy_array_t));
-    assert( a );
-    memcpy( a, NPY_ARRAY_BUILDER( data, SHAPE( nn->n_layers ), .typechar='S', .elem_size = (size_t) longest_name ), sizeof(npy_array_t));
-    save = npy_array_list_append( save, a, "activations" );
+    save = _list_copy( save, NPY_ARRAY_BUILDER( data, SHAPE( nn->n_layers ), .typechar='S', .elem_size = (size_t) longest_name ),
+            "activations", 0, &ok );
     /* (The above npy_array doesn't go out of any scope. heap allocating and copying is unnecessary, however ...
         Then I cannot free this array in the same way as the others. I need to treat it different when freeing!
         I therefore allocate on heap anyway...)  */
 
-    int n_saved = npy_array_list_save( real_filename, save );
+    int n_saved = 0;
+    if( ok )
+        n_saved = npy_array_list_save( real_filename, save );
+    else
+        fprintf( stderr, "Warning: Cannot save neural network. Cannot allocate memory.\n" );
     if( n_saved != (nn->n_layers*2 + 1) )
         printf("Warning: Arrays written: %d  !=  2 x n_layers + 1     (n_layers=%d)\n", n_saved, nn->n_layers );
 
-- 
2.43.0


From 6dbbea9870efea7ca3f3f99c5923e61b95e70bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 27/61] fix: loading an archive drops arrays silently on I/O
 errors or lack of memory

---
 npy_array/npy_array_list.c | 39 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 980a247..b99557d 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -40,6 +40,8 @@ IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <stdbool.h>
 #include <assert.h>
 #include <stdarg.h>
 
@@ -217,6 +219,14 @@ save_error:
     return 0;
 }
 
+/* Was the entry of the archive not read because of the system? (and not because of its contents) */
+static bool _read_failed( zip_error_t *error )
+{
+    int code = zip_error_code_zip( error );
+    return code == ZIP_ER_READ || code == ZIP_ER_SEEK || code == ZIP_ER_TELL || code == ZIP_ER_EOF ||
+           code == ZIP_ER_MEMORY || code == ZIP_ER_INTERNAL;
+}
+
 npy_array_list_t * npy_array_list_load( const char *filename )
 {
     /* FIXME: better check. what went wrong? */
@@ -231,21 +241,48 @@ npy_array_list_t * npy_array_list_load( const char *filename )
         zip_file_t *fp = zip_fopen_index( zip, i, 0 ); /* FIXME Better checks */
         if (!fp ){
             fprintf(stderr, "Warning: Cannot open internal file of index %d in archive '%s'.\n", i, filename );
+            if( _read_failed( zip_get_error( zip )))
+                goto load_error;
             continue;
         }
+        errno = 0;
         npy_array_t *arr = _read_matrix( fp, &read_zip );
+        bool failed = !arr && ( errno == ENOMEM || _read_failed( zip_file_get_error( fp )));
         zip_fclose( fp );
         if(!arr) {
             fprintf(stderr, "Warning: Cannot read matrix.\n");
+            if( failed )
+                goto load_error;
             continue;
         }
         const char *name = zip_get_name( zip, i, 0 );
-        list = npy_array_list_append( list, arr, "%s", name ? name : "" );
+        if( !name )
+            name = "";
+
+        size_t length = npy_array_list_length( list );
+        list = npy_array_list_append( list, arr, "%s", name );
+        if( npy_array_list_length( list ) == length ){
+            npy_array_free( arr );
+            goto load_error;
+        }
+
+        npy_array_list_t *last = list;
+        while( last->next )
+            last = last->next;
+        if( !last->filename && strlen( name ) <= MAX_FILENAME_LEN )
+            goto load_error;
     }
 
     zip_close(zip);
     
     return list;
+
+load_error:
+    /* Do not pass on a list where arrays are missing because of an I/O error or lack of memory. */
+    fprintf(stderr, "Cannot load archive '%s'.\n", filename );
+    npy_array_list_free( list );
+    zip_close(zip);
+    return NULL;
 }
 
 size_t npy_array_list_length( npy_array_list_t *arr)
-- 
2.43.0


From 55e950d5d12352e30e3d4d7a833077403ba2efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 28/61] fix: an array that cannot be read is not skipped when
 loading an archive

---
 npy_array/npy_array_list.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index b99557d..7cd1a0d 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -40,7 +40,6 @@ IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
-#include <errno.h>
 #include <stdbool.h>
 #include <assert.h>
 #include <stdarg.h>
@@ -219,12 +218,21 @@ save_error:
     return 0;
 }
 
-/* Was the entry of the archive not read because of the system? (and not because of its contents) */
-static bool _read_failed( zip_error_t *error )
+/* Reads an entry of the archive, and takes notice of what kind of entry it is. */
+typedef struct _entry_t {
+    zip_file_t *fp;
+    bool first;       /* nothing is read yet */
+    bool is_array;    /* it starts like a numpy array, or it can't be told because of a read error */
+} entry_t;
+
+static int64_t read_entry( void *fp, void *buffer, uint64_t nbytes )
 {
-    int code = zip_error_code_zip( error );
-    return code == ZIP_ER_READ || code == ZIP_ER_SEEK || code == ZIP_ER_TELL || code == ZIP_ER_EOF ||
-           code == ZIP_ER_MEMORY || code == ZIP_ER_INTERNAL;
+    entry_t *entry = (entry_t *) fp;
+    int64_t n = read_zip( entry->fp, buffer, nbytes );
+    if( n < 0 || ( entry->first && n >= 6 && memcmp( buffer, "\x93NUMPY", 6 ) == 0 ))
+        entry->is_array = true;
+    entry->first = false;
+    return n;
 }
 
 npy_array_list_t * npy_array_list_load( const char *filename )
@@ -241,19 +249,16 @@ npy_array_list_t * npy_array_list_load( const char *filename )
         zip_file_t *fp = zip_fopen_index( zip, i, 0 ); /* FIXME Better checks */
         if (!fp ){
             fprintf(stderr, "Warning: Cannot open internal file of index %d in archive '%s'.\n", i, filename );
-            if( _read_failed( zip_get_error( zip )))
-                goto load_error;
-            continue;
+            goto load_error;
         }
-        errno = 0;
-        npy_array_t *arr = _read_matrix( fp, &read_zip );
-        bool failed = !arr && ( errno == ENOMEM || _read_failed( zip_file_get_error( fp )));
+        entry_t entry = { .fp = fp, .first = true };
+        npy_array_t *arr = _read_matrix( &entry, &read_entry );
         zip_fclose( fp );
         if(!arr) {
             fprintf(stderr, "Warning: Cannot read matrix.\n");
-            if( failed )
+            if( entry.is_array )
                 goto load_error;
-            continue;
+            continue;   /* It's something else than an array. */
         }
         const char *name = zip_get_name( zip, i, 0 );
         if( !name )
@@ -278,7 +283,7 @@ npy_array_list_t * npy_array_list_load( const char *filename )
     return list;
 
 load_error:
-    /* Do not pass on a list where arrays are missing because of an I/O error or lack of memory. */
+    /* Do not pass on a list where arrays are missing. */
     fprintf(stderr, "Cannot load archive '%s'.\n", filename );
     npy_array_list_free( list );
     zip_close(zip);
-- 
2.43.0


From 2b26644876fa95dfde5ded16feae276b0b34eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:35 +0000
Subject: [PATCH 29/61] fix: long symbol names of user-supplied activations
 overflow a buffer

---
 src/activation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/activation.c b/src/activation.c
index 04b268c..a1a899b 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -123,7 +123,7 @@ static activation_func get_activation_func_dynamic( const char *name )
         return NULL;
     }
     activation_func retfunc = dlsym( handle, symbol );
-    char derivative_symbol[256];
+    char derivative_symbol[ strlen( symbol ) + sizeof("_derivative") ];
     sprintf(derivative_symbol, "%s_derivative", symbol );
     free( file_and_symbol_name );
     char * error_message = dlerror();
-- 
2.43.0


From 822a81df6c3f0749522234843f84aab405c86331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:35 +0000
Subject: [PATCH 30/61] fix: a user-supplied activation that cannot be recorded
 is not usable since its library is closed

---
 src/activation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index a1a899b..91bd115 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -138,7 +138,7 @@ static activation_func get_activation_func_dynamic( const char *name )
     if ( !rec ){
         perror( "Cannot allocate memory for dynamic loaded activation function record.\n" );
         dlclose( handle );
-        return retfunc;
+        return NULL;
     }
 
     /* Need to strdup again ... (Or maybe I can reuse if I re-insert the @ ?) */
@@ -146,8 +146,9 @@ static activation_func get_activation_func_dynamic( const char *name )
     rec->activation_name = malloc( len );
     if ( !rec->activation_name ){
         perror("Cannot allocate memory for dynamic loaded activation function name.\n" );
+        free( rec );
         dlclose( handle );
-        return retfunc;
+        return NULL;
     }
     memcpy( rec->activation_name, name, len);
 
-- 
2.43.0


From a7dc90cb093dfdcc2d21f4e158a02a61ef996315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:35 +0000
Subject: [PATCH 31/61] fix: every lookup of a user-supplied activation opens
 the library and registers the clean-up again

---
 src/activation.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/activation.c b/src/activation.c
index 91bd115..5a8db9d 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -5,6 +5,7 @@
 #include "activation.h"
 #include "simd.h"
 
+#include <stdbool.h>
 #include <string.h>
 #include <math.h>
 
@@ -90,7 +91,9 @@ static activation_record_t *records = NULL;  /* A linked list of open activation
 
 static activation_func get_activation_func_dynamic( const char *name )
 {
-    atexit(cleanup_dynamic_symbols);
+    for( activation_record_t *iter = records; iter; iter = iter->next )
+        if( !strcmp( iter->activation_name, name ))
+            return iter->func_ptr;
 
     /* strdup() is not ansi c .... */
     size_t len = strlen( name ) + 1;
@@ -164,6 +167,12 @@ static activation_func get_activation_func_dynamic( const char *name )
     rec->func_ptr = retfunc;
     rec->next = NULL;
 
+    static bool cleanup_registered = false;
+    if( !cleanup_registered ){
+        atexit(cleanup_dynamic_symbols);
+        cleanup_registered = true;
+    }
+
     /* Find the backmost and append */
     if( !records )
         records = rec;
-- 
2.43.0


From f315ab9ad751a05854df42f3463ef8fac7878737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:35 +0000
Subject: [PATCH 32/61] fix: an activation name without a library looks for the
 symbol in the main program

---
 src/activation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/activation.c b/src/activation.c
index 5a8db9d..ce33f4f 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -116,7 +116,8 @@ static activation_func get_activation_func_dynamic( const char *name )
     char *library_file = at + 1;
     char *symbol = file_and_symbol_name;
 
-    void *handle = dlopen( library_file, RTLD_NOW );
+    /* (An empty name would open the main program.) */
+    void *handle = *library_file ? dlopen( library_file, RTLD_NOW ) : NULL;
     if ( !handle ){
         fprintf( stderr, "Cannot open dynamic library '%s'. \n"
                 "Set LD_LIBRARY_PATH \n"
-- 
2.43.0


From 6db4f876e3b495f90518b51c42ad61afebd3ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 33/61] fix: the buffer of an array is released twice when
 libzip runs out of memory

---
 npy_array/npy_array_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 7cd1a0d..76e1bfe 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -183,8 +183,8 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
         zip_source_t *s = zip_source_buffer_create( matrix_npy_format, hlen + datasize, 1, NULL);
         if( !s ){
+            /* libzip may have released the buffer already, so it can't be freed here. */
             fprintf(stderr, "Cannot allocate memory for writing archive '%s'.\n", filename );
-            free( matrix_npy_format );
             goto save_error;
         }
 
-- 
2.43.0


From d7e5d1567fefa6d22580f9ad7456f29dba59d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 34/61] fix: the order of the samples belongs to the optimizer

The number of samples the order was made for was kept in a function static, so a second
optimizer on a data set of the same size used no order at all (NULL pointer), and one that
switches data sets could use a too short one. The generator is seeded once: seeding it again
within the same second repeated the same order.
---
 src/optimizer.c | 10 ++++++----
 src/optimizer.h |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 4494ebc..8ab4968 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -15,9 +15,9 @@
 
 static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
 {
-    static unsigned int _n_sample = 0;
-    if ( n_train_samples != _n_sample ){
-        _n_sample = n_train_samples;
+    static bool is_seeded = false;
+    if ( n_train_samples != opt->n_pivot ){
+        opt->n_pivot = n_train_samples;
         opt->pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
         if ( !opt->pivot ){
             fprintf( stderr, "Cannot allocate pivot array.\n");
@@ -26,7 +26,9 @@ static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samp
         for ( unsigned int i = 0; i < n_train_samples; i++ )
             opt->pivot[i] = i;
 
-        srand( time (NULL ) );
+        if ( !is_seeded )
+            srand( time (NULL ) );
+        is_seeded = true;
     }
 }
 
diff --git a/src/optimizer.h b/src/optimizer.h
index 7de3202..f7dcbc2 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -31,6 +31,7 @@ struct _optimizer_t {
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
+    unsigned int n_pivot;   /* Don't touch! */
 };
 
 #if defined(__GNUC__)
@@ -68,6 +69,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
     newopt->opt.metrics    = optconf.metrics;   \
     \
     newopt->opt.pivot      = NULL; /* This will be allocated in the main loop */ \
+    newopt->opt.n_pivot    = 0;    \
     \
     __VA_ARGS__ ; \
     optimizer_check_sanity( OPTIMIZER(newopt) ); \
-- 
2.43.0


From adf2dd665dda2f8ae1d1d809cebf0bd6b41575a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 35/61] fix: an epoch without samples shuffles outside the
 order

---
 src/optimizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 8ab4968..e0cf54d 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -34,7 +34,7 @@ static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samp
 
 static void fisher_yates_shuffle( unsigned int *arr, unsigned int n )
 {
-    for ( unsigned int i = n-1; i > 0; i-- ){
+    for ( unsigned int i = n; i-- > 1; ){
         unsigned int j = rand() % (i+1);
         unsigned int tmp = arr[j];
         arr[j] = arr[i];
-- 
2.43.0


From 7dc10a989d31f64ffb0d29e2a95af37ef983b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 36/61] fix: the default metric of an optimizer is overwritten
 by the next optimizer

---
 src/optimizer.c | 8 +++-----
 src/optimizer.h | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index e0cf54d..22b02cb 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -51,12 +51,10 @@ void optimizer_check_sanity( optimizer_t * opt)
     assert( opt->batchsize > 0 );
 
     /* If the metrics is set to NULL - add the metric function corresponding to the loss */
-    static metric_func static_metrics[2];
-    static_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
-    static_metrics[1] = NULL;
-
     if( opt->metrics == NULL ){
-        opt->metrics = static_metrics;
+        opt->default_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
+        opt->default_metrics[1] = NULL;
+        opt->metrics = opt->default_metrics;
     }
 }
 
diff --git a/src/optimizer.h b/src/optimizer.h
index f7dcbc2..189f663 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -32,6 +32,7 @@ struct _optimizer_t {
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
     unsigned int n_pivot;   /* Don't touch! */
+    metric_func  default_metrics[2];  /* Don't touch! */
 };
 
 #if defined(__GNUC__)
-- 
2.43.0


From 2d8a91f9ec81f919243af9f48980f4bcbf4b850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 37/61] fix: the batch gradient is accumulated outside the
 caller's array

The reduction ran over a padded length, and wrote to the memory behind the array.
---
 src/optimizer.c | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 22b02cb..424c294 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -65,19 +65,6 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    /* There is a bug in OpenMP -- if using reduction on an aligned array, there will be threaded
-       copies of the arrays in each thread. These copies will not necesarrily be aligned, but rather
-       follow the previous in memory. Solving this can be done by padding. I've not seen this documented
-       but it seems to work. Hence this padding. */
-#ifdef __AVX__
-#define PADDING_SIZE 16
-    /* Hmmm.... maybe it doesn't work after all? it doesn't work with PADDING_SIZE=32, but
-       it works with PADDING_SIZE=16... why? Is this really a stable solution? */
-    const unsigned int n_param_padding = n_parameters + (PADDING_SIZE - n_parameters % PADDING_SIZE);
-    assert( (n_param_padding % PADDING_SIZE) == 0);
-#else
-    const unsigned int n_param_padding __attribute__((unused))  = n_parameters;
-#endif
     memset( batchgrad, 0, n_parameters * sizeof(float));  /* Clear the batch grad */
 
     const int n_input  = nn->layer[0].n_input;
@@ -85,13 +72,13 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_param_padding])
+#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
         neuralnet_backpropagation( nn, train_X + (opt->pivot[idx] * n_input), train_Y + (opt->pivot[idx] * n_output), grad );
-        /* When using OpenMP, OpenMP will not align stack allocated arrays -- we therefore
-           have to use `_unaligned` for this accumulation. :-(  */
+        /* When using reduction on an array, the threads' copies of the array will not necessarily be
+           aligned -- we therefore have to use `_unaligned` for this accumulation. :-(  */
         vector_accumulate_unaligned( n_parameters, batchgrad, grad );
     }
     *i += batchsize;
-- 
2.43.0


From 211380d9be777aafdf0bc9049fe7e71a7ef4deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 38/61] fix: optimizers that keep the default clean-up are
 freed twice

---
 src/optimizer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimizer.h b/src/optimizer.h
index 189f663..d9da1e8 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -47,6 +47,11 @@ struct _optimizer_t {
 #define DLLEXPORT
 #endif
 
+/* The default clean-up of an optimizer that doesn't own anything. (optimizer_free() frees the optimizer itself.) */
+static inline void optimizer_free_nothing( optimizer_t UNUSED(*self) )
+{
+}
+
 #define OPTIMIZER_DEFINE(name,...) \
 static void name ## _run_epoch( optimizer_t *opt, \
         const unsigned int n_train_samples, const float *train_X, const float *train_Y ); \
@@ -60,7 +65,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
         return NULL; \
     } \
     newopt->opt.run_epoch = name ## _run_epoch; \
-    newopt->opt.free = (void(*)(optimizer_t*)) free; \
+    newopt->opt.free = optimizer_free_nothing; \
     \
     /* First the configs */ \
     newopt->opt.nn         = nn; \
-- 
2.43.0


From c5f97c6bd21be9d1e152d63271e8b58d5ffe3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 39/61] fix: the bias correction of Adam belongs to the
 optimizer

---
 src/adam.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/adam.c b/src/adam.c
index be59be0..b93999e 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -23,6 +23,8 @@ struct _adam_t
     float weight_decay;
 
     /* private stuff - don't touch! */
+    float beta_1_corrected;
+    float beta_2_corrected;
     float *r;
     float *s;
 };
@@ -36,6 +38,9 @@ static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
     adam->beta_2 = props->beta_2;
     adam->weight_decay = props->weight_decay;
 
+    adam->beta_1_corrected = 1.0f;
+    adam->beta_2_corrected = 1.0f;
+
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(adam)->nn );
 
     adam->r   = simd_malloc( n_param * sizeof(float) );
@@ -155,9 +160,6 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    static float beta_1_corrected = 1.0f;
-    static float beta_2_corrected = 1.0f;
-
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
@@ -165,8 +167,8 @@ void adam_run_epoch( optimizer_t *opt,
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
-        beta_1_corrected *= adam->beta_1;
-        beta_2_corrected *= adam->beta_2;
+        adam->beta_1_corrected *= adam->beta_1;
+        adam->beta_2_corrected *= adam->beta_2;
 
         #pragma omp parallel sections
         {
@@ -176,7 +178,7 @@ void adam_run_epoch( optimizer_t *opt,
             update_biased_second_moment( n_parameters, adam->r, g, adam->beta_2 );
         }
 
-        compute_update_adam( n_parameters, g, adam->s, adam->r, beta_1_corrected, beta_2_corrected, adam->learning_rate );
+        compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
             float SIMD_ALIGN(weights[n_parameters]);
-- 
2.43.0


From 747c460c1df8048000f273c31c9192e91fe9178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 40/61] fix: training a network with many parameters overflows
 the stack

Every gradient was a variable length array, some of them doubled by the reduction. With the
usual stack of 8 MB a network of 700000 parameters could not be trained.
---
 src/RMSprop.c   |  9 +++++++--
 src/SGD.c       |  5 ++++-
 src/adagrad.c   |  5 ++++-
 src/adam.c      |  9 +++++++--
 src/optimizer.c | 29 +++++++++++++++++++++--------
 5 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/RMSprop.c b/src/RMSprop.c
index cc8d746..4ce5d28 100644
--- a/src/RMSprop.c
+++ b/src/RMSprop.c
@@ -93,6 +93,11 @@ void RMSprop_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    float *batchgrad = simd_malloc( n_parameters * sizeof(float) );
+    float *g2        = simd_malloc( n_parameters * sizeof(float) );
+    assert( batchgrad );
+    assert( g2 );
+
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
         /* Apply interim update */
@@ -102,7 +107,6 @@ void RMSprop_run_epoch( optimizer_t *opt,
                 neuralnet_update( nn, rmsprop->velocity );
         }
 
-        float SIMD_ALIGN(batchgrad[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, batchgrad );
         if( opt->progress ) opt->progress( i, n_train_samples, "Train: " );
 
@@ -114,7 +118,6 @@ void RMSprop_run_epoch( optimizer_t *opt,
         float *delta_w = batchgrad;
         float *r = rmsprop->r; 
 
-        float SIMD_ALIGN(g2[n_parameters]);
         vector_square_elements( n_parameters, g2, batchgrad );
         vector_saxpby( n_parameters, r, 1.0f - rmsprop->rho, g2, rmsprop->rho );
 
@@ -127,5 +130,7 @@ void RMSprop_run_epoch( optimizer_t *opt,
         else
             neuralnet_update( nn, delta_w );
     }
+    simd_free( g2 );
+    simd_free( batchgrad );
 }
 
diff --git a/src/SGD.c b/src/SGD.c
index 6ea3dbc..3bb7298 100644
--- a/src/SGD.c
+++ b/src/SGD.c
@@ -58,6 +58,9 @@ void SGD_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    float *batchgrad = simd_malloc( n_parameters * sizeof(float) );
+    assert( batchgrad );
+
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
         /* Apply interim update */
@@ -68,7 +71,6 @@ void SGD_run_epoch( optimizer_t *opt,
         }
 
         /* Calculate batch gradient */
-        float SIMD_ALIGN(batchgrad[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, batchgrad );
 
         /* Progress callback */
@@ -93,5 +95,6 @@ void SGD_run_epoch( optimizer_t *opt,
         else
             neuralnet_update( nn, neg_eta_grad );
     }
+    simd_free( batchgrad );
 }
 
diff --git a/src/adagrad.c b/src/adagrad.c
index b2b6a85..cc3c57a 100644
--- a/src/adagrad.c
+++ b/src/adagrad.c
@@ -98,9 +98,11 @@ void adagrad_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    float *batchgrad = simd_malloc( n_parameters * sizeof(float) );
+    assert( batchgrad );
+
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
-        float SIMD_ALIGN(batchgrad[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, batchgrad );
         if( opt->progress ) opt->progress( i, n_train_samples, "Train: " );
         
@@ -116,5 +118,6 @@ void adagrad_run_epoch( optimizer_t *opt,
 
         neuralnet_update( nn, delta_w );
     }
+    simd_free( batchgrad );
 }
 
diff --git a/src/adam.c b/src/adam.c
index b93999e..5b95b70 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -160,10 +160,14 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    float *g       = simd_malloc( n_parameters * sizeof(float) );
+    float *weights = simd_malloc( n_parameters * sizeof(float) );
+    assert( g );
+    assert( weights );
+
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
-        float SIMD_ALIGN(g[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
@@ -181,12 +185,13 @@ void adam_run_epoch( optimizer_t *opt,
         compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
-            float SIMD_ALIGN(weights[n_parameters]);
             neuralnet_get_parameters( nn, weights );
             vector_saxpy( n_parameters, g, -adam->weight_decay, weights);
         }
 
         neuralnet_update( nn, g);
     }
+    simd_free( weights );
+    simd_free( g );
 }
 
diff --git a/src/optimizer.c b/src/optimizer.c
index 424c294..0e1dc0e 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -72,14 +72,27 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
-    for ( int b = 0 ; b < batchsize; b++){
-        const int idx = *i + b;
-        float SIMD_ALIGN(grad[n_parameters]);
-        neuralnet_backpropagation( nn, train_X + (opt->pivot[idx] * n_input), train_Y + (opt->pivot[idx] * n_output), grad );
-        /* When using reduction on an array, the threads' copies of the array will not necessarily be
-           aligned -- we therefore have to use `_unaligned` for this accumulation. :-(  */
-        vector_accumulate_unaligned( n_parameters, batchgrad, grad );
+#pragma omp parallel
+    {
+        /* These are too large for the stack. */
+        float *grad = simd_malloc( n_parameters * sizeof(float) );
+        float *sum  = simd_malloc( n_parameters * sizeof(float) );
+        assert( grad );
+        assert( sum );
+        memset( sum, 0, n_parameters * sizeof(float));
+
+#pragma omp for
+        for ( int b = 0 ; b < batchsize; b++){
+            const int idx = *i + b;
+            neuralnet_backpropagation( nn, train_X + (opt->pivot[idx] * n_input), train_Y + (opt->pivot[idx] * n_output), grad );
+            vector_accumulate( n_parameters, sum, grad );
+        }
+
+#pragma omp critical
+        vector_accumulate_unaligned( n_parameters, batchgrad, sum );
+
+        simd_free( sum );
+        simd_free( grad );
     }
     *i += batchsize;
     vector_divide_by_scalar( n_parameters, batchgrad, (float) batchsize );
-- 
2.43.0


From 4bf94c6845777b6d49596db6958b8ad31fc7a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:43 +0000
Subject: [PATCH 41/61] fix: early stopping instances share their history

The best score and the number of epochs without improvement were static
variables. They belong to the instance. The initial value FLT_MAX does not
work when greater is better and the score itself can be FLT_MAX.
---
 src/earlystopping.c | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/earlystopping.c b/src/earlystopping.c
index 5ef91b3..fe5bc54 100644
--- a/src/earlystopping.c
+++ b/src/earlystopping.c
@@ -4,7 +4,7 @@
 */
 #include "earlystopping.h"
 #include <stdio.h>
-#include <float.h>
+#include <math.h>
 
 struct _earlystopping_t 
 {
@@ -14,6 +14,11 @@ struct _earlystopping_t
     int   monitor_idx;
     bool  greater_is_better;
     bool  early_stopping_flag;
+
+    /* private stuff - don't touch! */
+    bool  has_best;
+    float best_so_far;
+    int   epochs_since_improvement;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -23,15 +28,15 @@ CALLBACK_DEFINE(earlystopping,
         newcb->monitor_idx         = cfg->monitor_idx;
         newcb->greater_is_better   = cfg->greater_is_better;
         newcb->early_stopping_flag = false;
+        newcb->has_best            = false;
+        newcb->best_so_far         = 0.0f;
+        newcb->epochs_since_improvement = 0;
 );
 
 void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     earlystopping_t *es = (earlystopping_t*) cb;
 
-    static float best_so_far = FLT_MAX; 
-    static int epochs_since_improvement = 0;
-
     bool improvement = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -41,25 +46,22 @@ void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float
     /* Fixme. More checks */
 
     float score = epoch_results[idx];
-    if (es->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
-            improvement = true;
-            best_so_far = score;
-        }
-    } else {
-        if( score < best_so_far ){
-            improvement = true;
-            best_so_far = score;
-        }
-    }
+    if ( !es->has_best )
+        improvement = !isnan( score );  /* (NaN is never an improvement) */
+    else if (es->greater_is_better)
+        improvement = score > es->best_so_far;
+    else
+        improvement = score < es->best_so_far;
 
     if( improvement ){
-        epochs_since_improvement = 0;
+        es->has_best = true;
+        es->best_so_far = score;
+        es->epochs_since_improvement = 0;
         return;
     }
 
-    epochs_since_improvement++;
-    if ( epochs_since_improvement > es->patience ){
+    es->epochs_since_improvement++;
+    if ( es->epochs_since_improvement > es->patience ){
         es->early_stopping_flag = true;
     }
 
-- 
2.43.0


From c9d15b8c78794c6b3585dea83472fd8e77b74eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:43 +0000
Subject: [PATCH 42/61] fix: model checkpoint instances share their best score

The best score was a static variable. It belongs to the instance. The initial
value FLT_MAX does not work when greater is better and the score itself can be
FLT_MAX.
---
 src/modelcheckpoint.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 7b470bf..ca4daec 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -7,7 +7,7 @@
 #include "metrics.h"
 
 #include <stdio.h>
-#include <float.h>
+#include <math.h>
 #include <assert.h>
 
 struct _modelcheckpoint_t
@@ -18,6 +18,10 @@ struct _modelcheckpoint_t
     int monitor_idx;
     bool greater_is_better;
     bool verbose;
+
+    /* private stuff - don't touch! */
+    bool  has_best;
+    float best_so_far;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -27,14 +31,14 @@ CALLBACK_DEFINE(modelcheckpoint,
         newcb->monitor_idx           = cfg->monitor_idx;
         newcb->greater_is_better     = cfg->greater_is_better;
         newcb->verbose               = cfg->verbose;
+        newcb->has_best              = false;
+        newcb->best_so_far           = 0.0f;
 );
 
 void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     modelcheckpoint_t *mcp = (modelcheckpoint_t*) cb;
 
-    static float best_so_far = FLT_MAX; /* This will fail for greater_is_better */
-
     bool do_save = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -44,20 +48,20 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
     /* Fixme. More checks */
 
     float score = epoch_results[idx];
-    if (mcp->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
-            if( mcp->verbose )  /* BUG: This gives bullshit the first time */
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
-            do_save = true;
-            best_so_far = score;
-        }
-    } else {
-        if( score < best_so_far ){
-            if( mcp->verbose )
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
-            do_save = true;
-            best_so_far = score;
-        }
+    if ( !mcp->has_best )
+        do_save = !isnan( score );  /* (NaN is never an improvement) */
+    else if (mcp->greater_is_better)
+        do_save = score > mcp->best_so_far;
+    else
+        do_save = score < mcp->best_so_far;
+
+    if( do_save ){
+        if( mcp->verbose && mcp->has_best )
+            printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
+        else if( mcp->verbose )
+            printf("First score is %.4e (Saving checkpoint)\n", score );
+        mcp->has_best = true;
+        mcp->best_so_far = score;
     }
 
     if( do_save )
-- 
2.43.0


From c0f0738c43c5f15fe49109e7b4a462e0600cac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:43 +0000
Subject: [PATCH 43/61] fix: the file name of a model checkpoint is used as a
 format string

---
 src/modelcheckpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index ca4daec..2fa9360 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -65,7 +65,7 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
     }
 
     if( do_save )
-        neuralnet_save( opt->nn, mcp->filename ? mcp->filename : "checkpoint.npz");
+        neuralnet_save( opt->nn, "%s", mcp->filename ? mcp->filename : "checkpoint.npz");
     return;
 }
 
-- 
2.43.0


From 3c7b2f6733961f5a0b70eb40d0d3c0dc0ed3dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:43 +0000
Subject: [PATCH 44/61] fix: the progress bar shows too low percentages

The ratio is not exact in single precision, 53 of 100 was shown as 52%. For more
than 2^24 samples it also reached 100% before completion.
---
 src/progress.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/progress.c b/src/progress.c
index 66ef09b..215a7a3 100644
--- a/src/progress.c
+++ b/src/progress.c
@@ -75,9 +75,9 @@ void progress_ascii( int x, int n, const char *fmt, ... )
 	int w = getcols( STDOUT_FILENO ) - EXTRA_WIDTH - len;
 	if( w < 1 ) return;
 
-	// Calculuate the ratio of complete-to-incomplete.
-	float ratio = x/(float)n;
-	int   c     = ratio * w;
+	// Calculate the completed part of the bar and the percentage. (In integers, floats are not exact.)
+	int   c       = n > 0 ? (int)((long long) x * w / n) : w;
+	int   percent = n > 0 ? (int)((long long) x * 100 / n) : 100;
 
 	printf("%s[", label );
 
@@ -87,7 +87,7 @@ void progress_ascii( int x, int n, const char *fmt, ... )
 
 	// ANSI Control codes to go back to the
 	// previous line and clear it.
-	printf("] %3d%%", (int)(ratio*100));
+	printf("] %3d%%", percent);
 	printf( x == n ? "\n" : "\r");
 	fflush( stdout );
 }
-- 
2.43.0


From 1c689dd465f9d491d0bd56de681c25ab9dc825fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:28 +0000
Subject: [PATCH 45/61] fix: the logger overflows its buffer when there are
 many metrics

A line of more than 255 characters was written beyond the buffer (and then
stopped by an assertion). The line is written directly.
---
 src/logger.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 07fb869..30c4d71 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -7,7 +7,6 @@
 
 #include <stdio.h>
 #include <time.h>
-#include <assert.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -62,12 +61,8 @@ static int find_last_epoch_from_logfile( logger_t *logger )
     return logger->epoch_count;
 }
 
-void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+static void print_line( FILE *fp, const int epoch, optimizer_t *opt, const float *epoch_results, bool validation_set_given )
 {
-    logger_t *log = (logger_t*) cb;
-
-    char buffer[MAX_BUFFER + 1];
-    char *ptr = buffer;
     time_t rawtime;
     struct tm * timeinfo;
 
@@ -75,33 +70,38 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
     timeinfo = localtime ( &rawtime );
 
     /* First the time, let's settle for the time of day, there will be other evidence to se the date and year.*/
-    ptr += sprintf ( ptr, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
+    fprintf( fp, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
 
     /* Then the epoch count. The count is only stored in log. It is not in the optimizer */
-    ptr += sprintf ( ptr, EPOCH_STR " %3d ", log->epoch_count++ );
+    fprintf( fp, EPOCH_STR " %3d ", epoch );
 
     /* Now the metric values */
     int n_metrics = optimizer_get_n_metrics( opt ); // * ( 1 + (int)validation_set_given);
     for( int phase = 0; phase <= ((int) validation_set_given); phase++ ){  /* phase 0 -> train error / phase 1: validation error */
         for ( int i = 0; i < n_metrics; i++ ){
-            ptr += sprintf ( ptr, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
+            fprintf( fp, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
                     epoch_results[i + (phase * n_metrics)] );
         }
     }
 
-    ptr += sprintf(ptr, "\n" );
-    assert( ptr - buffer < MAX_BUFFER );
+    fprintf( fp, "\n" );
+}
+
+void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+{
+    logger_t *log = (logger_t*) cb;
+    const int epoch = log->epoch_count++;
 
     /* Print it out */
     if ( !log->no_stdout )
-        fprintf( stdout, "%s", buffer ); 
+        print_line( stdout, epoch, opt, epoch_results, validation_set_given );
 
     FILE *fp = NULL;
     if ( log->filename )
         fp = fopen( log->filename, "a" );
 
     if ( fp ){
-        fprintf( fp, "%s", buffer );
+        print_line( fp, epoch, opt, epoch_results, validation_set_given );
         fclose( fp );
     }
     return;
-- 
2.43.0


From f75baf8953868df98a61450e3b420e4cb8d2116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:28 +0000
Subject: [PATCH 46/61] fix: the epoch count is not found in many log files

The last 255 bytes of the file were read, whatever the length of the file and of
its last line. An empty file and a last line without an epoch accessed memory out
of bounds; a single line or a line longer than the buffer restarted the count.
---
 src/logger.c | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 30c4d71..0e37984 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -9,6 +9,7 @@
 #include <time.h>
 #include <string.h>
 #include <unistd.h>
+#include <limits.h>
 
 struct _logger_t 
 {
@@ -22,7 +23,6 @@ struct _logger_t
 static int find_last_epoch_from_logfile( logger_t *logger );
 
 #define EPOCH_STR "Epoch"
-#define MAX_BUFFER 255
 /* Define and set the defaults. OMG, this is ugly but it is general. */
 CALLBACK_DEFINE(logger,
         logger_config *cfg = (logger_config*) config;
@@ -32,7 +32,8 @@ CALLBACK_DEFINE(logger,
         newcb->epoch_count = find_last_epoch_from_logfile( newcb );
 );
 
-/* Here is some ugly code that looks for a previous logfile and finds the epoch counter */
+/* Here is some code that looks for a previous logfile and finds the epoch counter: the number in the last line that
+   has one. (A number that is cut by the end of the file doesn't count.) */
 static int find_last_epoch_from_logfile( logger_t *logger )
 {
     if( logger->epoch_count == 0 &&
@@ -42,21 +43,32 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         FILE *fp = fopen( logger->filename, "r");
         if(!fp)
             return logger->epoch_count; /* Fail silently should be OK */
-        char buf[MAX_BUFFER + 1];
-        fseek( fp, -MAX_BUFFER, SEEK_END );
-        size_t len=fread( buf, 1, MAX_BUFFER, fp );
-        fclose(fp);  /* Hurry up and close it */
-        buf[len] = '\0';
-        if( buf[len-1] == '\n' )  /* Dirty trick if the last line is terminated by newline (which it usually is) */
-            buf[len-1] = '\0';
-        char *last_newline = strrchr( buf, '\n' );
-        if ( !last_newline )
-            return logger->epoch_count;
-        char *last_line = last_newline + 1;
-        if( buf[len-1] == '\0' ) /* Fixing up the dirty trick */
-            buf[len-1] = '\n';   /* we are working on a buffer copy anyway so this is not a big deal */
-        char *e_counter = strstr( last_line, EPOCH_STR) + strlen(EPOCH_STR);
-        return atoi( e_counter ) + 1;
+        int next_epoch = logger->epoch_count;
+        size_t n_matched = 0;  /* The number of characters of EPOCH_STR just seen */
+        for( int c = getc( fp ); c != EOF; ){
+            if( c != EPOCH_STR[n_matched] ){
+                n_matched = 0;
+                if( c != EPOCH_STR[0] ){
+                    c = getc( fp );
+                    continue;
+                }
+            }
+            c = getc( fp );
+            if( ++n_matched < strlen(EPOCH_STR) )
+                continue;
+            n_matched = 0;
+
+            while( c == ' ' )
+                c = getc( fp );
+            long long epoch = -1;
+            for( ; c >= '0' && c <= '9' ; c = getc( fp ) )
+                if( epoch < INT_MAX )
+                    epoch = (epoch < 0 ? 0 : epoch * 10) + (c - '0');
+            if( c != EOF && epoch >= 0 && epoch < INT_MAX )
+                next_epoch = (int) epoch + 1;
+        }
+        fclose(fp);
+        return next_epoch;
     }
     return logger->epoch_count;
 }
-- 
2.43.0


From 9bfebc00f36e57fb3471ded007413d33d41918aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:28 +0000
Subject: [PATCH 47/61] fix: a log line is appended to a partly written line

A run that is killed may leave a last line without a newline.
---
 src/logger.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/logger.c b/src/logger.c
index 0e37984..a69b99b 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -110,9 +110,14 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
 
     FILE *fp = NULL;
     if ( log->filename )
-        fp = fopen( log->filename, "a" );
+        fp = fopen( log->filename, "a+" );
 
     if ( fp ){
+        /* An earlier run may have been killed while writing its last line. */
+        bool partial = fseek( fp, -1, SEEK_END ) == 0 && getc( fp ) != '\n';
+        fseek( fp, 0, SEEK_END );
+        if( partial )
+            fprintf( fp, "\n" );
         print_line( fp, epoch, opt, epoch_results, validation_set_given );
         fclose( fp );
     }
-- 
2.43.0


From 5d1a6f45011a7f95a8afa54f10c327539de0bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 48/61] fix: evaluating many samples in the BLAS build
 overflows the stack

All predictions were a variable length array.
---
 src/evaluate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1515c8e..34c9c09 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -6,6 +6,7 @@
 #include "neuralnet_predict_batch.h"
 #include "simd.h"
 #include <string.h>
+#include <assert.h>
 
 #include <omp.h>
 
@@ -26,8 +27,9 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     float local_results[n_metrics];
     memset( local_results, 0, n_metrics * sizeof(float));
 #ifdef USE_CBLAS
-    float predictions[ n_output * n_valid_samples ];
-    memset( predictions, 0, n_output * n_valid_samples * sizeof(float));
+    /* This can be too large for the stack. */
+    float *predictions = simd_malloc( (size_t) n_output * n_valid_samples * sizeof(float));
+    assert( predictions || n_valid_samples < 1 );
     neuralnet_predict_batch( nn, n_valid_samples, valid_X, predictions);
 #endif
     #pragma omp parallel for reduction(+:local_results[:])
@@ -44,6 +46,9 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
             *res++ += _error;
         }
     }
+#ifdef USE_CBLAS
+    simd_free( predictions );
+#endif
 
     float *res = results;
     for ( int i = 0; i < n_metrics; i++ )
-- 
2.43.0


From 3de7bafb56fb32c252cfcd0bfb9a3e2eb520e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 49/61] fix: offsets into data sets of more than 2^31 values
 overflow

---
 src/evaluate.c                | 6 +++---
 src/neuralnet_predict_batch.c | 8 ++++----
 src/optimizer.c               | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 34c9c09..0f9c841 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -35,14 +35,14 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     #pragma omp parallel for reduction(+:local_results[:])
     for ( int i = 0; i < n_valid_samples; i++ ){
 #ifdef USE_CBLAS
-        float *y_pred = predictions + (i*n_output);
+        float *y_pred = predictions + ((size_t) i*n_output);
 #else
         SIMD_ALIGN(float y_pred[n_output]);
-        neuralnet_predict( nn, valid_X + (i*n_input), y_pred );
+        neuralnet_predict( nn, valid_X + ((size_t) i*n_input), y_pred );
 #endif
         float *res = local_results;
         for ( int j = 0; j < n_metrics; j++ ){
-            float _error = metrics[j]( n_output, y_pred, valid_Y + (i*n_output));
+            float _error = metrics[j]( n_output, y_pred, valid_Y + ((size_t) i*n_output));
             *res++ += _error;
         }
     }
diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index cfb0deb..b37ee85 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -23,7 +23,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
     const int n_output = nn->layer[nn->n_layers-1].n_output;
 #pragma omp parallel for
     for ( int i = 0; i < n_samples; i++ )
-        neuralnet_predict( nn, inputs + i*n_inputs, output + i*n_output);
+        neuralnet_predict( nn, inputs + (size_t) i*n_inputs, output + (size_t) i*n_output);
 }
 #else
 /* This number depends on your system - how much memory do you want to stack allocate?
@@ -44,7 +44,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
 void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const float *inputs, float *output )
 {
     /* Make some work memory on stack. First calculate how much we need. */
-    int workmem_sz = 0;
+    size_t workmem_sz = 0;
     for( int i = 0; i < nn->n_layers; i++)
         workmem_sz += nn->layer[i].n_output;
     workmem_sz *= n_samples;  /* This size is also in floats */
@@ -55,7 +55,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
             "either recompile with a higher limit find another way to handle work memory" );
 #endif
 
-    if( N_STACK_ALLOC_FLOATS < workmem_sz ){
+    if( workmem_sz > N_STACK_ALLOC_FLOATS ){
         if( n_samples == 1 ){ /* A single sample cannot be split any further */
             neuralnet_predict( nn, inputs, output );
             return;
@@ -65,7 +65,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
         const int n_output = nn->layer[nn->n_layers-1].n_output;
         // fprintf(stderr, "Warning: Stack limit reached with %d samples - recursing.\n", n_samples);
         neuralnet_predict_batch( nn, half, inputs, output );
-        neuralnet_predict_batch( nn, n_samples - half, inputs+(half*n_inputs), output+(half*n_output) );
+        neuralnet_predict_batch( nn, n_samples - half, inputs+((size_t) half*n_inputs), output+((size_t) half*n_output) );
         return;    
     }
 
diff --git a/src/optimizer.c b/src/optimizer.c
index 0e1dc0e..3e189f7 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -84,7 +84,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 #pragma omp for
         for ( int b = 0 ; b < batchsize; b++){
             const int idx = *i + b;
-            neuralnet_backpropagation( nn, train_X + (opt->pivot[idx] * n_input), train_Y + (opt->pivot[idx] * n_output), grad );
+            neuralnet_backpropagation( nn, train_X + ((size_t) opt->pivot[idx] * n_input), train_Y + ((size_t) opt->pivot[idx] * n_output), grad );
             vector_accumulate( n_parameters, sum, grad );
         }
 
-- 
2.43.0


From 1e90274520de0a29d2eb4c37f3ef0cbcb3cc5a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 50/61] fix: evaluating without metrics accesses an array of
 length zero

---
 src/evaluate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0f9c841..bf7ffd8 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -23,6 +23,8 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     int n_metrics = 0;
     while ( *mf_ptr++ )
         n_metrics++;
+    if ( n_metrics == 0 )
+        return;
 
     float local_results[n_metrics];
     memset( local_results, 0, n_metrics * sizeof(float));
-- 
2.43.0


From d8a35086daaf1ec6418d9e9f6d40ff97ad8606b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:41 +0000
Subject: [PATCH 51/61] fix: concurrent batch predictions race for a function
 static in the BLAS build

---
 src/neuralnet_predict_batch.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index b37ee85..21fd6b8 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -109,9 +109,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
             memcpy( activations[i+1] + j*layer_ptr->n_output, layer_ptr->bias, size );
     }
 
-    static activation_func softmax = NULL; /* Keep it static such that get_() is called only once! */
-    if( !softmax )
-        softmax = get_activation_func( "softmax" ); /* Slow? */
+    const activation_func softmax = get_activation_func( "softmax" );
 
     /* Then we do the forward calculation */
     for( int i = 0; i < nn->n_layers; i++){
-- 
2.43.0


From 28fd20fc173b345556a184d5b1b47121f36d763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:16 +0000
Subject: [PATCH 52/61] fix: Free long array lists without recursion

The recursion overflows the stack for a list of about a million arrays.
---
 npy_array/npy_array_list.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 76e1bfe..8e59f82 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -59,15 +59,15 @@ static npy_array_list_t * npy_array_list_new()
 
 void npy_array_list_free( npy_array_list_t *list )
 {
-    if( !list )
-        return;
-    if( list->array )
-        npy_array_free( list->array );
-    if( list->filename )
-        free( list->filename );
-    if( list->next )
-        npy_array_list_free( list->next );
-    free( list );
+    while( list ){      /* (recursion would overflow the stack if the list is long) */
+        npy_array_list_t *next = list->next;
+        if( list->array )
+            npy_array_free( list->array );
+        if( list->filename )
+            free( list->filename );
+        free( list );
+        list = next;
+    }
 }
 
 static char * _va_args_filename( const char *filename, va_list ap1 )
-- 
2.43.0


From ab2d01e75104b78f875fa76ab494f7e4195fe2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:50 +0000
Subject: [PATCH 53/61] fix: evaluating more than 2^24 samples saturates the
 mean

---
 src/evaluate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index bf7ffd8..b0fed73 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -26,8 +26,8 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     if ( n_metrics == 0 )
         return;
 
-    float local_results[n_metrics];
-    memset( local_results, 0, n_metrics * sizeof(float));
+    double local_results[n_metrics];  /* A float stops counting at 2^24 samples. */
+    memset( local_results, 0, n_metrics * sizeof(double));
 #ifdef USE_CBLAS
     /* This can be too large for the stack. */
     float *predictions = simd_malloc( (size_t) n_output * n_valid_samples * sizeof(float));
@@ -42,7 +42,7 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
         SIMD_ALIGN(float y_pred[n_output]);
         neuralnet_predict( nn, valid_X + ((size_t) i*n_input), y_pred );
 #endif
-        float *res = local_results;
+        double *res = local_results;
         for ( int j = 0; j < n_metrics; j++ ){
             float _error = metrics[j]( n_output, y_pred, valid_Y + ((size_t) i*n_output));
             *res++ += _error;
-- 
2.43.0


From 5be4d849101a5ee67341e30de4dd18c019d87a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:57 +0000
Subject: [PATCH 54/61] fix: npy_array_dump prints sizes beyond 2^31 as
 negative numbers

---
 npy_array/npy_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 004b01d..cf5e41d 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -361,8 +361,8 @@ void npy_array_dump( const npy_array_t *m )
     }
     printf("Dimensions   : %d\n", m->ndim);
     printf("Shape        : ( ");
-    for( int i = 0; i < m->ndim - 1; i++) printf("%d, ", (int) m->shape[i]);
-    if( m->ndim > 0 ) printf("%d ", (int) m->shape[m->ndim-1]);
+    for( int i = 0; i < m->ndim - 1; i++) printf("%zu, ", m->shape[i]);
+    if( m->ndim > 0 ) printf("%zu ", m->shape[m->ndim-1]);
     printf(")\n");
     printf("Type         : '%c' ", m->typechar);
     printf("(%d bytes each element)\n", (int) m->elem_size);
-- 
2.43.0


From 04f62c2688588c20634fff44bc9613f7072db14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 55/61] fix: progress labels that are very long or can't be
 formatted overflow the stack

---
 src/progress.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/progress.c b/src/progress.c
index 215a7a3..a281053 100644
--- a/src/progress.c
+++ b/src/progress.c
@@ -7,6 +7,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdarg.h>
+#include <stdbool.h>
 #include <unistd.h> 
 #if __WIN32
 #include <windows.h>
@@ -68,12 +69,21 @@ void progress_ascii( int x, int n, const char *fmt, ... )
     len = vsnprintf( NULL, 0, fmt, ap1 );
     va_end( ap1 );
 
-    char label[len+1];
-    vsprintf( label, fmt, ap2 );
-    va_end( ap2 );
+    const bool has_label = len >= 0;  /* (it can't be formatted otherwise) */
+    if( !has_label )
+        len = 0;
 
 	int w = getcols( STDOUT_FILENO ) - EXTRA_WIDTH - len;
-	if( w < 1 ) return;
+	if( w < 1 ){   /* A label that doesn't fit the terminal may not fit the stack either. */
+		va_end( ap2 );
+		return;
+	}
+
+    char label[len+1];
+    label[0] = '\0';
+    if( has_label )
+        vsprintf( label, fmt, ap2 );
+    va_end( ap2 );
 
 	// Calculate the completed part of the bar and the percentage. (In integers, floats are not exact.)
 	int   c       = n > 0 ? (int)((long long) x * w / n) : w;
-- 
2.43.0


From 7760b6374141b7c681daebf6849e9d6a5d29c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 56/61] fix: saving a network under a name that can't be
 formatted overflows the stack

---
 src/neuralnet.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index f3b0ac5..5f3719c 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -380,6 +380,12 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
     len = vsnprintf( NULL, 0, filename, ap1 );
     va_end( ap1 );
 
+    if( len < 0 ){
+        fprintf( stderr, "Warning: Cannot save neural network. Your filename cannot be formatted.\n" );
+        va_end( ap2 );
+        return;
+    }
+
     if( len > _MAX_FILENAME_LEN ){
         /* If someone is trying to cook up a special filename that can contain executable code, I think it is wise
            to limit the length of the filename */
-- 
2.43.0


From dc0c894a523bab5dc8d62f91889d7ecd5ea5c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 57/61] fix: list names that can't be formatted overflow the
 heap

---
 npy_array/npy_array_list.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 8e59f82..3cf32fd 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -79,6 +79,12 @@ static char * _va_args_filename( const char *filename, va_list ap1 )
     len = vsnprintf( NULL, 0, filename, ap1 );
     va_end( ap1 );
 
+    if( len < 0 ){
+        fprintf( stderr, "Warning: Cannot name numpy array. Your filename cannot be formatted.\n" );
+        va_end( ap2 );
+        return NULL;
+    }
+
     if( len > MAX_FILENAME_LEN ){
         /* If someone is trying to cook up a special filename that can contain executable code, I think it is wise
            to limit the length of the filename */
-- 
2.43.0


From 99b407e11b719e38c9213b752c83df49960af768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:58 +0000
Subject: [PATCH 58/61] fix: the width of the progress bar overflows with
 labels of 2^31 characters

---
 src/progress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/progress.c b/src/progress.c
index a281053..f3b494f 100644
--- a/src/progress.c
+++ b/src/progress.c
@@ -73,11 +73,12 @@ void progress_ascii( int x, int n, const char *fmt, ... )
     if( !has_label )
         len = 0;
 
-	int w = getcols( STDOUT_FILENO ) - EXTRA_WIDTH - len;
-	if( w < 1 ){   /* A label that doesn't fit the terminal may not fit the stack either. */
+	int w = getcols( STDOUT_FILENO ) - EXTRA_WIDTH;
+	if( len >= w ){   /* A label that doesn't fit the terminal may not fit the stack either. */
 		va_end( ap2 );
 		return;
 	}
+	w -= len;
 
     char label[len+1];
     label[0] = '\0';
-- 
2.43.0


From 0265bfc95a2e51c97257cfe86c92f7ec7464ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:54 +0000
Subject: [PATCH 59/61] fix: archive entries that cannot be read are taken for
 something else than arrays

---
 npy_array/npy_array_list.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 3cf32fd..dea6c6b 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -227,8 +227,9 @@ save_error:
 /* Reads an entry of the archive, and takes notice of what kind of entry it is. */
 typedef struct _entry_t {
     zip_file_t *fp;
+    uint64_t size;    /* according to the directory of the archive */
     bool first;       /* nothing is read yet */
-    bool is_array;    /* it starts like a numpy array, or it can't be told because of a read error */
+    bool is_array;    /* it starts like a numpy array, or it can't be told because it can't be read */
 } entry_t;
 
 static int64_t read_entry( void *fp, void *buffer, uint64_t nbytes )
@@ -237,6 +238,8 @@ static int64_t read_entry( void *fp, void *buffer, uint64_t nbytes )
     int64_t n = read_zip( entry->fp, buffer, nbytes );
     if( n < 0 || ( entry->first && n >= 6 && memcmp( buffer, "\x93NUMPY", 6 ) == 0 ))
         entry->is_array = true;
+    else if( entry->first && (uint64_t) n < nbytes && (uint64_t) n < entry->size )
+        entry->is_array = true;  /* Its beginning is missing. */
     entry->first = false;
     return n;
 }
@@ -257,7 +260,9 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             fprintf(stderr, "Warning: Cannot open internal file of index %d in archive '%s'.\n", i, filename );
             goto load_error;
         }
-        entry_t entry = { .fp = fp, .first = true };
+        zip_stat_t st;
+        bool has_size = zip_stat_index( zip, i, 0, &st ) == 0 && ( st.valid & ZIP_STAT_SIZE );
+        entry_t entry = { .fp = fp, .size = has_size ? st.size : 0, .first = true };
         npy_array_t *arr = _read_matrix( &entry, &read_entry );
         zip_fclose( fp );
         if(!arr) {
-- 
2.43.0


From 154612efce882c5e9c56f1bb007e94e3824d3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:29 +0000
Subject: [PATCH 60/61] fix: archives whose contents fail their checksum are
 loaded

---
 npy_array/npy_array_list.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index dea6c6b..e022d63 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -244,6 +244,16 @@ static int64_t read_entry( void *fp, void *buffer, uint64_t nbytes )
     return n;
 }
 
+/* The checksum of an entry is verified when its end is reached. */
+static bool is_intact( zip_file_t *fp )
+{
+    char rest[4096];
+    zip_int64_t n;
+    while(( n = zip_fread( fp, rest, sizeof rest )) > 0 )
+        ;
+    return n == 0;
+}
+
 npy_array_list_t * npy_array_list_load( const char *filename )
 {
     /* FIXME: better check. what went wrong? */
@@ -264,7 +274,14 @@ npy_array_list_t * npy_array_list_load( const char *filename )
         bool has_size = zip_stat_index( zip, i, 0, &st ) == 0 && ( st.valid & ZIP_STAT_SIZE );
         entry_t entry = { .fp = fp, .size = has_size ? st.size : 0, .first = true };
         npy_array_t *arr = _read_matrix( &entry, &read_entry );
+        bool intact = is_intact( fp );
         zip_fclose( fp );
+        if(!intact) {
+            fprintf(stderr, "Warning: The contents of index %d in archive '%s' are damaged.\n", i, filename );
+            if( arr )
+                npy_array_free( arr );
+            goto load_error;
+        }
         if(!arr) {
             fprintf(stderr, "Warning: Cannot read matrix.\n");
             if( entry.is_array )
-- 
2.43.0


From 02056355a7415404912a5a8157caca2dc75ad5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:36 +0000
Subject: [PATCH 61/61] fix: the default metric is that of an earlier loss if
 the loss was changed after the optimizer was created

---
 src/optimizer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimizer.c b/src/optimizer.c
index 3e189f7..bc03302 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -102,6 +102,10 @@ void optimizer_run_epoch( optimizer_t *self,
         const unsigned int n_train_samples, const float *train_X, const float *train_Y,
         const unsigned int n_valid_samples, const float *valid_X, const float *valid_Y, float *results )
 {
+    /* The default metric belongs to the loss, which may have been changed since the optimizer was created. */
+    if( self->metrics == self->default_metrics )
+        self->default_metrics[0] = get_metric_func( get_loss_name( self->nn->loss ));
+
     /* Setup some stuff */
     prepare_shuffle_pivot( self, n_train_samples );
     if( self->shuffle )
-- 
2.43.0

