From 26ff517a6f0815a4d70dc7f20dbdefdc48f72b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 01/52] fix: neuralnet_predict crashed on output buffers
 without SIMD alignment

The output layer was calculated directly into the caller's buffer with aligned
stores. Rows of neuralnet_predict_batch() output are not aligned in general.
---
 src/neuralnet.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 0106850..7bb8e2f 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -256,13 +256,12 @@ void neuralnet_predict( const neuralnet_t *nn, const float *input, float *out )
     float *activations[nn->n_layers+1];
     activations[0] = (float*) input;
     activations[1] = workmem;
-    for( int i = 1; i < nn->n_layers-1; i++) {
+    for( int i = 1; i < nn->n_layers; i++) {
         int size_w_padding = (nn->layer[i-1].n_output + floats_per_simd_register - 1) / floats_per_simd_register;
         size_w_padding *= floats_per_simd_register;
         activations[i+1] = activations[i] + size_w_padding;
         assert( is_aligned( activations[i+1] ));
     }
-    activations[nn->n_layers] = out;
 
     /* Debug */
 #if 0
@@ -289,6 +288,9 @@ void neuralnet_predict( const neuralnet_t *nn, const float *input, float *out )
                 activations[i+1]);
         layer_ptr->activation_func( layer_ptr->n_output, activations[i+1] );
     }
+
+    /* The kernels need aligned memory, but `out` can be anything (like a row in a matrix of predictions). */
+    memcpy( out, activations[nn->n_layers], nn->layer[nn->n_layers-1].n_output * sizeof(float));
 }
 
 #ifndef PREDICTION_ONLY
-- 
2.43.0


From 8ae5d0fecbba309c4e90b0e7c46904e259fda6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 02/52] fix: activation derivatives crashed on unaligned
 gradient blocks

The bias gradients start anywhere inside the gradient vector, hence they are not
SIMD aligned in general.
---
 src/activation.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 90effd3..b0a6d54 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -651,8 +651,8 @@ static void relu_derivative        ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
         
         YMM0 = _mm256_cmp_ps(YMM0, zero, _CMP_LE_OS);
         YMM1 = _mm256_cmp_ps(YMM1, zero, _CMP_LE_OS);
@@ -660,11 +660,11 @@ static void relu_derivative        ( const int n, const float *activation, float
         YMM0 = _mm256_blendv_ps( ones, zero, YMM0);
         YMM1 = _mm256_blendv_ps( ones, zero, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -681,8 +681,8 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM2 = _mm256_sub_ps( ones, YMM0 );
         YMM3 = _mm256_sub_ps( ones, YMM1 );
@@ -690,11 +690,11 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
         YMM0 = _mm256_mul_ps(YMM0, YMM2);
         YMM1 = _mm256_mul_ps(YMM1, YMM3);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -710,8 +710,8 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM0 = _mm256_mul_ps(YMM0, YMM0);
         YMM1 = _mm256_mul_ps(YMM1, YMM1);
@@ -719,11 +719,11 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
         YMM0 = _mm256_sub_ps(ones, YMM0);
         YMM1 = _mm256_sub_ps(ones, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for( ; i < n; i++ )
-- 
2.43.0


From 3c69b45644e90754d413b0e6a3076795b195db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 03/52] fix: matrix_vector_multiply crashed on matrix rows that
 are not SIMD aligned

Only rows of matrices with a multiple of the SIMD width columns are aligned.
---
 src/matrix_operations.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 21ea4be..4344ce1 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -49,9 +49,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m512 sums = _mm512_setzero_ps ();
         for (; j <= ((n_cols)-16); j += 16, m_ptr += 16, v_ptr += 16){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr), sums);
+            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr), sums);
 #else
-            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr)));
+            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr)));
 #endif
         }
         y[i] = _mm512_reduce_add_ps( sums );
@@ -60,9 +60,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m256 sum = _mm256_setzero_ps ();
         for (; j <= ((n_cols)-8); j += 8, m_ptr += 8, v_ptr += 8){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr), sum);
+            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr), sum);
 #else
-            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr)));
+            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr)));
 #endif
         }
         y[i] += horizontalsum_avx( sum );
-- 
2.43.0


From 6c194ec1bd1b7c86cd9bf166de32ae95f36bc532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 04/52] fix: tanh activation crashed on vectors that are not
 SIMD aligned

Do as the other vectorized activations do.
---
 src/activation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/activation.c b/src/activation.c
index b0a6d54..4d21980 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -547,7 +547,10 @@ static void tanh_act( const int n, float *y )
 
     __m256 YMM0, YMM1, YMM2, YMM3;
 
-    for (i = 0; i <= ((n)-16); i += 16) {
+    for ( ; !is_aligned( y + i ) && i < n; i++)
+        y[i] = tanhf(y[i]);
+
+    for ( ; i <= ((n)-16); i += 16) {
         YMM0 = _mm256_load_ps(y + i);
         YMM1 = _mm256_load_ps(y + i + 8);
         YMM0 = _mm256_mul_ps(neg_two, YMM0);
-- 
2.43.0


From 71e16af4f98f32c61b9da39ebda3c3ea75cc9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 05/52] fix: softplus overflowed to inf and its derivative to
 NaN

Inputs above 88 gave inf (although softplus(x) -> x), and the derivative inf/inf.
Negative inputs below -17 gave zero.
---
 src/activation.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 4d21980..d54b2ab 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -579,7 +579,7 @@ static void exponential( const int n, float *ar )
 static void softplus( const int n, float *ar )
 {
     for( int i = 0; i < n; i++ )
-        ar[i] = logf( expf(ar[i]) + 1.0f ) ;
+        ar[i] = fmaxf( ar[i], 0.0f ) + log1pf( expf( -fabsf( ar[i] ))) ;
 }
 
 static void softsign( const int n, float *ar )
@@ -599,10 +599,9 @@ static void hard_sigmoid( const int n, float *ar )
 #ifndef PREDICTION_ONLY
 static void softplus_derivative    ( const int n, const float *activation, float *ar )
 {
-    for( int i=0; i < n; i++ ){
-        float x =  expf( activation[i] );
-        ar[i] *= (x - 1.0f) / x; 
-    }
+    /* (exp(a) - 1) / exp(a) without the overflow */
+    for( int i=0; i < n; i++ )
+        ar[i] *= -expm1f( -activation[i] );
 }
 
 static void softsign_derivative    ( const int n, const float *activation, float *ar )
-- 
2.43.0


From d81e26e65f23b38c0c46879d3e576e65c8f29e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 06/52] fix: the batch gradient reduction wrote beyond the
 gradient vector

The reduction covered up to 16 floats more than the array holds: it read and added
to whatever follows on the caller's stack. The padding is not needed, since the
accumulation in the loop does not require alignment.
---
 src/optimizer.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 4494ebc..3df147a 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -65,19 +65,6 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    /* There is a bug in OpenMP -- if using reduction on an aligned array, there will be threaded
-       copies of the arrays in each thread. These copies will not necesarrily be aligned, but rather
-       follow the previous in memory. Solving this can be done by padding. I've not seen this documented
-       but it seems to work. Hence this padding. */
-#ifdef __AVX__
-#define PADDING_SIZE 16
-    /* Hmmm.... maybe it doesn't work after all? it doesn't work with PADDING_SIZE=32, but
-       it works with PADDING_SIZE=16... why? Is this really a stable solution? */
-    const unsigned int n_param_padding = n_parameters + (PADDING_SIZE - n_parameters % PADDING_SIZE);
-    assert( (n_param_padding % PADDING_SIZE) == 0);
-#else
-    const unsigned int n_param_padding __attribute__((unused))  = n_parameters;
-#endif
     memset( batchgrad, 0, n_parameters * sizeof(float));  /* Clear the batch grad */
 
     const int n_input  = nn->layer[0].n_input;
@@ -85,7 +72,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_param_padding])
+#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-- 
2.43.0


From 44c596fcc79f03d989fe89ac72dbd3857c83dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 07/52] fix: the second optimizer of a process used a missing
 or too small pivot array

The number of samples the pivot array was made for was kept in a static variable
shared by all optimizers. Also do not run wild when shuffling an empty set.
---
 src/optimizer.c | 7 +++----
 src/optimizer.h | 2 ++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 3df147a..0261ebc 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -15,9 +15,8 @@
 
 static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
 {
-    static unsigned int _n_sample = 0;
-    if ( n_train_samples != _n_sample ){
-        _n_sample = n_train_samples;
+    if ( n_train_samples != opt->n_pivot ){
+        opt->n_pivot = n_train_samples;
         opt->pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
         if ( !opt->pivot ){
             fprintf( stderr, "Cannot allocate pivot array.\n");
@@ -32,7 +31,7 @@ static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samp
 
 static void fisher_yates_shuffle( unsigned int *arr, unsigned int n )
 {
-    for ( unsigned int i = n-1; i > 0; i-- ){
+    for ( unsigned int i = n; i-- > 1; ){
         unsigned int j = rand() % (i+1);
         unsigned int tmp = arr[j];
         arr[j] = arr[i];
diff --git a/src/optimizer.h b/src/optimizer.h
index 7de3202..5005cce 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -31,6 +31,7 @@ struct _optimizer_t {
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
+    unsigned int n_pivot;   /* Don't touch! */
 };
 
 #if defined(__GNUC__)
@@ -68,6 +69,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
     newopt->opt.metrics    = optconf.metrics;   \
     \
     newopt->opt.pivot      = NULL; /* This will be allocated in the main loop */ \
+    newopt->opt.n_pivot    = 0; \
     \
     __VA_ARGS__ ; \
     optimizer_check_sanity( OPTIMIZER(newopt) ); \
-- 
2.43.0


From 140cd649516f963abc7e3cb92d7a0aeedbb1a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 08/52] fix: adam optimizers shared their bias correction

The powers of beta were static, such that a second adam optimizer started with the
bias correction of the first.
---
 src/adam.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/adam.c b/src/adam.c
index be59be0..96cf4f4 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -25,6 +25,8 @@ struct _adam_t
     /* private stuff - don't touch! */
     float *r;
     float *s;
+    float beta_1_corrected;
+    float beta_2_corrected;
 };
 
 static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
@@ -36,6 +38,9 @@ static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
     adam->beta_2 = props->beta_2;
     adam->weight_decay = props->weight_decay;
 
+    adam->beta_1_corrected = 1.0f;
+    adam->beta_2_corrected = 1.0f;
+
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(adam)->nn );
 
     adam->r   = simd_malloc( n_param * sizeof(float) );
@@ -155,9 +160,6 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    static float beta_1_corrected = 1.0f;
-    static float beta_2_corrected = 1.0f;
-
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
@@ -165,8 +167,8 @@ void adam_run_epoch( optimizer_t *opt,
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
-        beta_1_corrected *= adam->beta_1;
-        beta_2_corrected *= adam->beta_2;
+        adam->beta_1_corrected *= adam->beta_1;
+        adam->beta_2_corrected *= adam->beta_2;
 
         #pragma omp parallel sections
         {
@@ -176,7 +178,7 @@ void adam_run_epoch( optimizer_t *opt,
             update_biased_second_moment( n_parameters, adam->r, g, adam->beta_2 );
         }
 
-        compute_update_adam( n_parameters, g, adam->s, adam->r, beta_1_corrected, beta_2_corrected, adam->learning_rate );
+        compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
             float SIMD_ALIGN(weights[n_parameters]);
-- 
2.43.0


From ff096b81c204d382654ea0a328a54fe663884841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 09/52] fix: early stopping callbacks shared their best score
 and patience counter

With static variables, a second training in the same process was compared to the
best score of the first.
---
 src/earlystopping.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/earlystopping.c b/src/earlystopping.c
index 5ef91b3..19d0fcc 100644
--- a/src/earlystopping.c
+++ b/src/earlystopping.c
@@ -14,6 +14,8 @@ struct _earlystopping_t
     int   monitor_idx;
     bool  greater_is_better;
     bool  early_stopping_flag;
+    float best_so_far;
+    int   epochs_since_improvement;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -23,15 +25,14 @@ CALLBACK_DEFINE(earlystopping,
         newcb->monitor_idx         = cfg->monitor_idx;
         newcb->greater_is_better   = cfg->greater_is_better;
         newcb->early_stopping_flag = false;
+        newcb->best_so_far         = FLT_MAX;
+        newcb->epochs_since_improvement = 0;
 );
 
 void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     earlystopping_t *es = (earlystopping_t*) cb;
 
-    static float best_so_far = FLT_MAX; 
-    static int epochs_since_improvement = 0;
-
     bool improvement = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -42,24 +43,24 @@ void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float
 
     float score = epoch_results[idx];
     if (es->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > es->best_so_far || es->best_so_far == FLT_MAX ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < es->best_so_far ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     }
 
     if( improvement ){
-        epochs_since_improvement = 0;
+        es->epochs_since_improvement = 0;
         return;
     }
 
-    epochs_since_improvement++;
-    if ( epochs_since_improvement > es->patience ){
+    es->epochs_since_improvement++;
+    if ( es->epochs_since_improvement > es->patience ){
         es->early_stopping_flag = true;
     }
 
-- 
2.43.0


From 818f153df98f177737a8cfa2010020c1a2df67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 10/52] fix: model checkpoint callbacks shared their best score

With a static variable, the checkpoint of a second training in the same process was
only written when it was better than the best of the first.
---
 src/modelcheckpoint.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 7b470bf..1b9233b 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -18,6 +18,7 @@ struct _modelcheckpoint_t
     int monitor_idx;
     bool greater_is_better;
     bool verbose;
+    float best_so_far;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -27,14 +28,13 @@ CALLBACK_DEFINE(modelcheckpoint,
         newcb->monitor_idx           = cfg->monitor_idx;
         newcb->greater_is_better     = cfg->greater_is_better;
         newcb->verbose               = cfg->verbose;
+        newcb->best_so_far           = FLT_MAX;
 );
 
 void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     modelcheckpoint_t *mcp = (modelcheckpoint_t*) cb;
 
-    static float best_so_far = FLT_MAX; /* This will fail for greater_is_better */
-
     bool do_save = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -45,18 +45,18 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
 
     float score = epoch_results[idx];
     if (mcp->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > mcp->best_so_far || mcp->best_so_far == FLT_MAX ){
             if( mcp->verbose )  /* BUG: This gives bullshit the first time */
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < mcp->best_so_far ){
             if( mcp->verbose )
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     }
 
-- 
2.43.0


From 68473286f03fef8c54cde78bf5646955c8095c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 11/52] fix: a checkpoint file name with a percent sign was
 used as a format string

---
 src/modelcheckpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 1b9233b..5d2e767 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -61,7 +61,7 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
     }
 
     if( do_save )
-        neuralnet_save( opt->nn, mcp->filename ? mcp->filename : "checkpoint.npz");
+        neuralnet_save( opt->nn, "%s", mcp->filename ? mcp->filename : "checkpoint.npz");
     return;
 }
 
-- 
2.43.0


From e88ef0f570fd5c7de0dd0a3edcc44e201e4b4e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 12/52] fix: creating an optimizer changed the default metric
 of the earlier ones

The metric list for optimizers created without metrics was a static array, hence
rewritten by each optimizer created later.
---
 src/optimizer.c | 8 +++-----
 src/optimizer.h | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 0261ebc..f0aa9f9 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -48,12 +48,10 @@ void optimizer_check_sanity( optimizer_t * opt)
     assert( opt->batchsize > 0 );
 
     /* If the metrics is set to NULL - add the metric function corresponding to the loss */
-    static metric_func static_metrics[2];
-    static_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
-    static_metrics[1] = NULL;
-
     if( opt->metrics == NULL ){
-        opt->metrics = static_metrics;
+        opt->default_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
+        opt->default_metrics[1] = NULL;
+        opt->metrics = opt->default_metrics;
     }
 }
 
diff --git a/src/optimizer.h b/src/optimizer.h
index 5005cce..e2df01e 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -32,6 +32,7 @@ struct _optimizer_t {
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
     unsigned int n_pivot;   /* Don't touch! */
+    metric_func  default_metrics[2]; /* Used when no metrics are given */
 };
 
 #if defined(__GNUC__)
-- 
2.43.0


From 5fd66ac9e905d577222d75ab8be690da0ed6dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 13/52] fix: log lines with several or long metric names
 overflowed a stack buffer

The line was formatted into 256 bytes; five metrics on both a training and a
validation set are more than that. Write straight to the streams instead.
---
 src/logger.c | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 07fb869..ccd281b 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -7,7 +7,6 @@
 
 #include <stdio.h>
 #include <time.h>
-#include <assert.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -62,48 +61,52 @@ static int find_last_epoch_from_logfile( logger_t *logger )
     return logger->epoch_count;
 }
 
-void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+static void write_log_line( FILE *fp, const logger_t *log, const optimizer_t *opt, const struct tm *timeinfo,
+        const float *epoch_results, bool validation_set_given )
 {
-    logger_t *log = (logger_t*) cb;
-
-    char buffer[MAX_BUFFER + 1];
-    char *ptr = buffer;
-    time_t rawtime;
-    struct tm * timeinfo;
-
-    time ( &rawtime );
-    timeinfo = localtime ( &rawtime );
-
     /* First the time, let's settle for the time of day, there will be other evidence to se the date and year.*/
-    ptr += sprintf ( ptr, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
+    fprintf( fp, "[%02d:%02d:%02d] ",timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec);
 
-    /* Then the epoch count. The count is only stored in log. It is not in the optimizer */
-    ptr += sprintf ( ptr, EPOCH_STR " %3d ", log->epoch_count++ );
+    /* Then the epoch count. */
+    fprintf( fp, EPOCH_STR " %3d ", log->epoch_count );
 
     /* Now the metric values */
     int n_metrics = optimizer_get_n_metrics( opt ); // * ( 1 + (int)validation_set_given);
     for( int phase = 0; phase <= ((int) validation_set_given); phase++ ){  /* phase 0 -> train error / phase 1: validation error */
         for ( int i = 0; i < n_metrics; i++ ){
-            ptr += sprintf ( ptr, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
+            fprintf( fp, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
                     epoch_results[i + (phase * n_metrics)] );
         }
     }
 
-    ptr += sprintf(ptr, "\n" );
-    assert( ptr - buffer < MAX_BUFFER );
+    fprintf( fp, "\n" );
+}
+
+void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
+{
+    logger_t *log = (logger_t*) cb;
+
+    time_t rawtime;
+    struct tm * timeinfo;
+
+    time ( &rawtime );
+    timeinfo = localtime ( &rawtime );
 
     /* Print it out */
     if ( !log->no_stdout )
-        fprintf( stdout, "%s", buffer ); 
+        write_log_line( stdout, log, opt, timeinfo, epoch_results, validation_set_given );
 
     FILE *fp = NULL;
     if ( log->filename )
         fp = fopen( log->filename, "a" );
 
     if ( fp ){
-        fprintf( fp, "%s", buffer );
+        write_log_line( fp, log, opt, timeinfo, epoch_results, validation_set_given );
         fclose( fp );
     }
+
+    /* The count is only stored in log. It is not in the optimizer */
+    log->epoch_count++;
     return;
 }
 
-- 
2.43.0


From 09eaa5f45553957698598ff1e8a08d16c0b43d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 14/52] fix: reading back the epoch number from certain log
 files crashed or restarted at zero

An empty log file, or one where the last line is not a log line, was parsed out of
bounds. A log with one line only restarted the count, and so did a log where the
last line was longer than the buffer.
---
 src/logger.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index ccd281b..f483270 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -42,21 +42,18 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         FILE *fp = fopen( logger->filename, "r");
         if(!fp)
             return logger->epoch_count; /* Fail silently should be OK */
+        /* The last line that looks like ours. (Lines can be longer than the buffer, but we only need the start) */
         char buf[MAX_BUFFER + 1];
-        fseek( fp, -MAX_BUFFER, SEEK_END );
-        size_t len=fread( buf, 1, MAX_BUFFER, fp );
-        fclose(fp);  /* Hurry up and close it */
-        buf[len] = '\0';
-        if( buf[len-1] == '\n' )  /* Dirty trick if the last line is terminated by newline (which it usually is) */
-            buf[len-1] = '\0';
-        char *last_newline = strrchr( buf, '\n' );
-        if ( !last_newline )
-            return logger->epoch_count;
-        char *last_line = last_newline + 1;
-        if( buf[len-1] == '\0' ) /* Fixing up the dirty trick */
-            buf[len-1] = '\n';   /* we are working on a buffer copy anyway so this is not a big deal */
-        char *e_counter = strstr( last_line, EPOCH_STR) + strlen(EPOCH_STR);
-        return atoi( e_counter ) + 1;
+        bool line_start = true;
+        int  next_epoch = logger->epoch_count;
+        while( fgets( buf, sizeof buf, fp ) ){
+            int epoch;
+            if( line_start && 1 == sscanf( buf, "[%*d:%*d:%*d] " EPOCH_STR " %d", &epoch ))
+                next_epoch = epoch + 1;
+            line_start = strchr( buf, '\n' ) != NULL;
+        }
+        fclose( fp );
+        return next_epoch;
     }
     return logger->epoch_count;
 }
-- 
2.43.0


From a347473da85f40a9f345f931253a34b0944e8067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 15/52] fix: mean absolute percentage error was nonsense for
 negative targets

Negative targets were clipped to epsilon, as if they were zero. tests/metrics.py has
the absolute value.
---
 src/loss.c    | 2 +-
 src/metrics.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/loss.c b/src/loss.c
index 880d253..1ba4d07 100644
--- a/src/loss.c
+++ b/src/loss.c
@@ -76,7 +76,7 @@ static void mean_absolute_error( unsigned int n, const float *y_pred, const floa
 static void mean_absolute_percentage_error( unsigned int n, const float *y_pred, const float *y_real, float *loss )
 {
     for( unsigned int i = 0; i < n; i++ )
-        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmax(y_real[i], 1e-7f) * (float) n);
+        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmax(fabsf(y_real[i]), 1e-7f) * (float) n);
 }
 
 static void categorical_crossentropy( unsigned int n, const float *y_pred, const float *y_real, float *loss )
diff --git a/src/metrics.c b/src/metrics.c
index d1b286e..b3cbf57 100644
--- a/src/metrics.c
+++ b/src/metrics.c
@@ -87,7 +87,7 @@ static float mean_absolute_percentage_error(const int n, const float *y_pred, co
 {
     float diff = 0.0f;
     for( int i = 0; i < n; i++ )
-        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( y_real[i], epsilon ));
+        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( fabsf( y_real[i] ), epsilon ));
 
     return 100.0f * diff / (float) n;
 }
-- 
2.43.0


From 2b837a0b42f4ac2cc023e268804a01c569f1bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 16/52] fix: binary accuracy counted predictions outside (-0.5,
 1.5) as wrong

Clip the prediction like the target; so does the reference in tests/metrics.py.
---
 src/metrics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics.c b/src/metrics.c
index b3cbf57..6f8c19a 100644
--- a/src/metrics.c
+++ b/src/metrics.c
@@ -128,7 +128,7 @@ static float binary_accuracy( const int n, const float *y_pred, const float *y_r
     float sum = 0.0f;
     for( int i = 0; i < n; i++ ){
         float real = roundf(fmin( fmax( y_real[i], 0.0f ) , 1.0f ));
-        float pred = roundf( y_pred[i] );
+        float pred = roundf(fmin( fmax( y_pred[i], 0.0f ) , 1.0f ));
         sum += real == pred ? 1.0f : 0.0f;
     }
     return sum / n;
-- 
2.43.0


From f7e7217c3c29ce46e889ec5b5d1c7c6d6e3d73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 17/52] fix: long names of custom activation functions
 overflowed a stack buffer

---
 src/activation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/activation.c b/src/activation.c
index d54b2ab..381bdfc 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -123,7 +123,7 @@ static activation_func get_activation_func_dynamic( const char *name )
         return NULL;
     }
     activation_func retfunc = dlsym( handle, symbol );
-    char derivative_symbol[256];
+    char derivative_symbol[ len + strlen("_derivative") ];
     sprintf(derivative_symbol, "%s_derivative", symbol );
     free( file_and_symbol_name );
     char * error_message = dlerror();
-- 
2.43.0


From cae319f1dad1cf1fab6a98d4fe2e7e218e3d141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 18/52] fix: the normal distribution gave NaN when both uniform
 numbers were zero

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 7bb8e2f..1975bf3 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -708,7 +708,7 @@ static float random_normal()
             v = random_uniform();  /* from -1 to +1 */
 
             S = u*u + v*v;
-        } while (S >= 1.0f);
+        } while (S >= 1.0f || S == 0.0f);
 
         fac = sqrtf( -2.0f * logf(S) / S );
         Z = u * fac;
-- 
2.43.0


From a161ad597d77a5162fa03292b930c425a8c945dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 19/52] fix: out of memory when loading a custom activation
 returned an unmapped function

The library is closed in this case, so the function cannot be used.
---
 src/activation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 381bdfc..980bd66 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -138,7 +138,7 @@ static activation_func get_activation_func_dynamic( const char *name )
     if ( !rec ){
         perror( "Cannot allocate memory for dynamic loaded activation function record.\n" );
         dlclose( handle );
-        return retfunc;
+        return NULL;
     }
 
     /* Need to strdup again ... (Or maybe I can reuse if I re-insert the @ ?) */
@@ -147,7 +147,8 @@ static activation_func get_activation_func_dynamic( const char *name )
     if ( !rec->activation_name ){
         perror("Cannot allocate memory for dynamic loaded activation function name.\n" );
         dlclose( handle );
-        return retfunc;
+        free( rec );
+        return NULL;
     }
     memcpy( rec->activation_name, name, len);
 
-- 
2.43.0


From 5e2872d4bfe88f162636cc5946bc9cf1c2c12716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 20/52] fix: neuralnet_create freed garbage when out of memory
 and wrapped large sizes

The error path frees the weights and biases of all layers, also those not allocated
yet. The number of weights of a layer was calculated in int.
---
 src/neuralnet.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 1975bf3..98de8cb 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -18,6 +18,7 @@
 #include <stdarg.h>
 #include <stdbool.h>
 #include <math.h>
+#include <limits.h>
 #include <assert.h>
 
 #if defined(VERBOSE) 
@@ -73,8 +74,12 @@ static bool _weights_memory_allocate( neuralnet_t *nn )
         }
     }
 
+    for ( int i = 0; i < nn->n_layers; i++ )
+        if( nn->layer[i].n_input > INT_MAX / nn->layer[i].n_output ) /* The kernels index with int */
+            goto weight_alloc_error;
+
     for ( int i = 0; i < nn->n_layers; i++ ){
-        if (NULL == (nn->layer[i].weight = simd_malloc( nn->layer[i].n_input * nn->layer[i].n_output * sizeof( float ))))
+        if (NULL == (nn->layer[i].weight = simd_malloc( (size_t) nn->layer[i].n_input * nn->layer[i].n_output * sizeof( float ))))
             goto weight_alloc_error;
     }
 
@@ -649,7 +654,7 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
 
     nn->n_layers = n_layers;
     /* The layers vector is also nice to do unaligned */
-    nn->layer = malloc( n_layers * sizeof( layer_t ));
+    nn->layer = calloc( n_layers, sizeof( layer_t ));
     if ( !(nn->layer)){
         fprintf( stderr, "Cannot allocate memory for neural neworks layers.\n");
         free( nn );
-- 
2.43.0


From 010665ae03e88efb74fc15d00297d492000733ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:23 +0000
Subject: [PATCH 21/52] fix: batch prediction with BLAS recursed forever for
 networks wider than the work memory

A single sample that does not fit cannot be split. Also, the size needed was
calculated in int, which wraps for large batches.
---
 src/neuralnet_predict_batch.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 6b52cc7..5401ed0 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -38,13 +38,13 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
  * and recurse like a divide-and-conquere scheme.
  */
 #ifndef N_STACK_ALLOC_FLOATS
-#define N_STACK_ALLOC_FLOATS 64 * 1024
+#define N_STACK_ALLOC_FLOATS (64 * 1024)
 #endif
 
 void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const float *inputs, float *output )
 {
     /* Make some work memory on stack. First calculate how much we need. */
-    int workmem_sz = 0;
+    size_t workmem_sz = 0;
     for( int i = 0; i < nn->n_layers; i++)
         workmem_sz += nn->layer[i].n_output;
     workmem_sz *= n_samples;  /* This size is also in floats */
@@ -56,6 +56,10 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
 #endif
 
     if( N_STACK_ALLOC_FLOATS < workmem_sz ){
+        if( n_samples == 1 ){  /* Cannot be split any more */
+            neuralnet_predict( nn, inputs, output );
+            return;
+        }
         int half = n_samples >> 1;
         const int n_inputs = nn->layer[0].n_input;
         const int n_output = nn->layer[nn->n_layers-1].n_output;
-- 
2.43.0


From 87effccad8e477682d606023a115c68adde9bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:23 +0000
Subject: [PATCH 22/52] fix: evaluating large data sets with BLAS overflowed
 the stack

All the predictions were kept in a stack array.
---
 src/evaluate.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1515c8e..9e843d0 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -6,6 +6,8 @@
 #include "neuralnet_predict_batch.h"
 #include "simd.h"
 #include <string.h>
+#include <stdlib.h>
+#include <stdio.h>
 
 #include <omp.h>
 
@@ -26,8 +28,11 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     float local_results[n_metrics];
     memset( local_results, 0, n_metrics * sizeof(float));
 #ifdef USE_CBLAS
-    float predictions[ n_output * n_valid_samples ];
-    memset( predictions, 0, n_output * n_valid_samples * sizeof(float));
+    float *predictions = calloc( (size_t) n_output * n_valid_samples + 1, sizeof(float));
+    if( !predictions ){
+        fprintf( stderr, "Cannot allocate memory for predictions. No evaluation done.\n");
+        return;
+    }
     neuralnet_predict_batch( nn, n_valid_samples, valid_X, predictions);
 #endif
     #pragma omp parallel for reduction(+:local_results[:])
@@ -45,6 +50,9 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
         }
     }
 
+#ifdef USE_CBLAS
+    free( predictions );
+#endif
     float *res = results;
     for ( int i = 0; i < n_metrics; i++ )
         *res++ = local_results[i] / (float) n_valid_samples;
-- 
2.43.0


From 687525821f3f00f95269255d16744a74f906a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 23/52] fix: npy headers of 128 bytes or more were read with a
 wrong length

The two bytes of the header length are unsigned, but were added as signed chars. The
same when unmapping: remember the length of the map instead of recalculating it.
---
 npy_array/npy_array.c | 19 ++++++-------------
 npy_array/npy_array.h |  1 +
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b8f3cf9..cd2838c 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -179,8 +179,8 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME! This may fail for version 2 and it may also fail on big endian systems.... */
     uint16_t header_length = 0;
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
     
     char header[header_length + 1];
     chk = read_func( fp, header, header_length );
@@ -254,6 +254,7 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         map_handler_t *mh = (map_handler_t*) fp;
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
+        m->map_length = mh->length;
         return m;
     }
 
@@ -382,17 +383,9 @@ void npy_array_free( npy_array_t *m )
         return;
     }
 
-    if( m->map_addr ){
-        /* We need the length of the data mapped. We are mapping the whole file, so we have to
-           recalculate the size.  */
-        uint16_t header_length = 0;
-        char *preheader = m->map_addr;
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
-
-        size_t len = NPY_ARRAY_PREHEADER_LENGTH + header_length + npy_array_calculate_datasize(m);
-        munmap( m->map_addr, len );
-    } else
+    if( m->map_addr )
+        munmap( m->map_addr, m->map_length );
+    else
         free( m->data );
 
     free( m );
diff --git a/npy_array/npy_array.h b/npy_array/npy_array.h
index 3c02e01..b046b00 100644
--- a/npy_array/npy_array.h
+++ b/npy_array/npy_array.h
@@ -55,6 +55,7 @@ typedef struct _npy_array_t {
     bool              fortran_order;
     /* Consider map_addr as a private member. Do modify this pointer! Used for unmap() */
     void             *map_addr;      /* pointer to the map if array is mmap()'ed -- else NULL */
+    size_t            map_length;    /* private: length of the map */
 } npy_array_t;
 
 
-- 
2.43.0


From 32e4f2cf66e3c10ce48ba0bbd628a2c1e29dd1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 24/52] fix: arrays with no elements or eight dimensions could
 not be loaded

A zero in the shape ended the shape, so that empty arrays were taken to have elements.
With eight dimensions (which is NPY_ARRAY_MAX_DIMENSIONS) the program was aborted when
loading, and the shape was read out of bounds when saving. A file with more dimensions
aborted as well.
---
 npy_array/npy_array.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index cd2838c..04fffb0 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -135,9 +135,8 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
 size_t npy_array_calculate_datasize( const npy_array_t *m )
 {
     size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 && (idx < m->ndim) )
-        n_elements *= m->shape[ idx++ ];
+    for ( int i = 0; i < m->ndim; i++ )
+        n_elements *= m->shape[i];
     return n_elements * m->elem_size;
 }
 
@@ -236,15 +235,18 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
             shape++;
             continue;
         }
+        if( m->ndim == NPY_ARRAY_MAX_DIMENSIONS ){
+            fprintf(stderr, "Cannot read arrays with more than %d dimensions.\n", NPY_ARRAY_MAX_DIMENSIONS );
+            free( m );
+            return NULL;
+        }
         m->shape[m->ndim] = strtol( shape, &shape, 10);
         m->ndim++;
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
     }
 
     size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 )
-        n_elements *= m->shape[ idx++ ];
+    for ( int i = 0; i < m->ndim; i++ )
+        n_elements *= m->shape[i];
 
 #if VERBOSE
     printf("Number of elements: %llu\n", (unsigned long long) n_elements );
@@ -258,7 +260,7 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         return m;
     }
 
-    m->data = malloc( n_elements * m->elem_size );
+    m->data = malloc( n_elements > 0 ? n_elements * m->elem_size : 1 );
     if ( !m->data ){
         fprintf(stderr, "Cannot allocate memory for matrix data.\n");
         free( m );
@@ -339,7 +341,8 @@ void npy_array_dump( const npy_array_t *m )
     printf("Dimensions   : %d\n", m->ndim);
     printf("Shape        : ( ");
     for( int i = 0; i < m->ndim - 1; i++) printf("%d, ", (int) m->shape[i]);
-    printf("%d )\n", (int) m->shape[m->ndim-1]);
+    if( m->ndim > 0 ) printf("%d ", (int) m->shape[m->ndim-1]);
+    printf(")\n");
     printf("Type         : '%c' ", m->typechar);
     printf("(%d bytes each element)\n", (int) m->elem_size);
     printf("Fortran order: %s\n", m->fortran_order ? "True" : "False" );
-- 
2.43.0


From 987d22031f72822ee47df27a3a7738eb065be1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 25/52] fix: malformed npy headers aborted the program or were
 read out of bounds

A missing key hit an assert and a shape without closing parenthesis ran off the end
of the buffer. npy_array_load() reports failure by returning NULL, so do that.
---
 npy_array/npy_array.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 04fffb0..32a3f3f 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -199,7 +199,8 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     char *descr   = find_header_item("'descr': '", header);
-    assert(descr);
+    if( !descr || strlen( descr ) < 3 )
+        goto header_error;
     if ( strchr("<>|", descr[0] ) ){
         m->endianness = descr[0];
         if( descr[0] != '|' && ( descr[0] != endianness())){
@@ -213,12 +214,16 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->typechar = descr[1];
 
     /* FIXME: Check the **endptr (second argument which is still NULL here)*/
+    if( !isdigit( (unsigned char) descr[2] ))
+        goto header_error;
     m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
-    assert( m->elem_size > 0 );
+    if( m->elem_size == 0 )
+        goto header_error;
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *fortran = find_header_item("'fortran_order': ", header);
-    assert( fortran );
+    if( !fortran )
+        goto header_error;
 
     if(strncmp(fortran, "True", 4) == 0 )
         m->fortran_order = true;
@@ -229,12 +234,15 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *shape   = find_header_item("'shape': ", header);
-    assert(shape);
+    if( !shape || *shape++ != '(' )
+        goto header_error;
     while (*shape != ')' ) {
-        if( !isdigit( (int) *shape ) ){
+        if( *shape == ' ' || *shape == ',' || *shape == 'L' ){  /* Python 2 had long integers like '3L' */
             shape++;
             continue;
         }
+        if( !isdigit( (unsigned char) *shape ) )
+            goto header_error;
         if( m->ndim == NPY_ARRAY_MAX_DIMENSIONS ){
             fprintf(stderr, "Cannot read arrays with more than %d dimensions.\n", NPY_ARRAY_MAX_DIMENSIONS );
             free( m );
@@ -275,6 +283,11 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         return NULL;
     }
     return m;
+
+header_error:
+    fprintf(stderr, "Cannot understand the header of the numpy array.\n");
+    free( m );
+    return NULL;
 }
 
 npy_array_t * npy_array_load( const char *filename )
-- 
2.43.0


From 2c47f6416ed011f9af231a0e0bc9deadff6e95df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 26/52] fix: a shape too large for size_t gave an array with
 less data than its shape

The multiplication of the dimensions wrapped around.
---
 npy_array/npy_array.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 32a3f3f..7b0980d 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -253,8 +253,13 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     size_t n_elements = 1;
-    for ( int i = 0; i < m->ndim; i++ )
+    for ( int i = 0; i < m->ndim; i++ ){
+        if( m->shape[i] > 0 && n_elements > (size_t) PTRDIFF_MAX / m->shape[i] )
+            goto header_error;
         n_elements *= m->shape[i];
+    }
+    if( n_elements > (size_t) PTRDIFF_MAX / m->elem_size )
+        goto header_error;
 
 #if VERBOSE
     printf("Number of elements: %llu\n", (unsigned long long) n_elements );
-- 
2.43.0


From a04618d98472d8c3a7806590a1cb65baf07ec3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 27/52] fix: truncated files could be mapped, with data beyond
 the end of the file

The length of the file was not checked against the header, and short reads of the
header itself were reported as complete.
---
 npy_array/npy_array.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 7b0980d..cecf7ae 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -267,6 +267,11 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->map_addr = NULL;
     if( read_func == read_mapped ){
         map_handler_t *mh = (map_handler_t*) fp;
+        if( mh->length - (mh->current_pos - mh->start_pos) < n_elements * m->elem_size ){
+            fprintf(stderr, "Could not read all data.\n");
+            free( m );
+            return NULL;
+        }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
         m->map_length = mh->length;
@@ -320,7 +325,7 @@ static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes )
     size_t bytes_to_read = bytes_left > nbytes ? nbytes : bytes_left;
     memcpy( buffer, mh->current_pos, bytes_to_read );
     mh->current_pos += bytes_to_read;
-    return (int64_t) nbytes;
+    return (int64_t) bytes_to_read;
 }
 
 npy_array_t * npy_array_mmap( const char *filename )
-- 
2.43.0


From f55af8ed2bdbafc21ed1b118ca46d7dbfa14702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 28/52] fix: array dimensions of 2^31 and above were saved as
 garbage

They were printed as int. Also, do not abort when the header needs more than 128 bytes
for a large number of digits.
---
 npy_array/npy_array.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index cecf7ae..13892cc 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -97,7 +97,7 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     char *ptr = shape;
 
     for( int i = 0; i < m->ndim; i++)
-        ptr += sprintf(ptr, "%d,", (int) m->shape[i]);
+        ptr += sprintf(ptr, "%zu,", m->shape[i]);
     assert( ptr - shape < NPY_ARRAY_SHAPE_BUFSIZE );
 
     /* Potential bug? There are some additional whitespaces after the dictionaries saved from
@@ -108,10 +108,9 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
        It is terminated by a newline (\n) and padded with spaces (\x20) to make the total of:
        len(magic string) + 2 + len(length) + HEADER_LEN be evenly divisible by 64 for alignment purposes.
 
-       ... which sounds smart enough for me, and with some reverse engineering it looks like HEADER_LEN is 108.
+       ... which sounds smart enough for me.
 
      */
-#define HEADER_LEN 108
     /* WARNING: This code looks inocent and simple, but it was really a struggle. Do not touch unless you like pain! */
     size_t len = sprintf(dict, "{'descr': '%c%c%zu', 'fortran_order': %s, 'shape': (%s), }",
             _guess_endianness( m ),
@@ -120,8 +119,8 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
             m->fortran_order ? "True": "False",
             shape );
 
-    assert( len < HEADER_LEN ); /* FIXME: This can go wrong for really big arrays with a lot of dimensions */
-    len += sprintf( dict + len, "%*s\n", (int) (HEADER_LEN - len + NPY_ARRAY_PREHEADER_LENGTH - 1), " " );
+    const size_t total = (NPY_ARRAY_PREHEADER_LENGTH + len + 1 + 63) / 64 * 64;
+    len += sprintf( dict + len, "%*s\n", (int) (total - NPY_ARRAY_PREHEADER_LENGTH - len - 1), "" );
 
     const uint16_t _len = (uint16_t) (len);
     memcpy( p, &_len, sizeof(uint16_t));
@@ -129,7 +128,6 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     memcpy( p, dict, len);
 
     return len + NPY_ARRAY_PREHEADER_LENGTH;
-#undef HEADER_LEN
 }
 
 size_t npy_array_calculate_datasize( const npy_array_t *m )
-- 
2.43.0


From 16f35b1955380558ec42d3a9416d6897ccf8da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 29/52] fix: only a quarter of the data of unicode string
 arrays was loaded

The size in the type description of these is not in bytes, but in characters.
---
 npy_array/npy_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 13892cc..52715ef 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -115,7 +115,7 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     size_t len = sprintf(dict, "{'descr': '%c%c%zu', 'fortran_order': %s, 'shape': (%s), }",
             _guess_endianness( m ),
             m->typechar,
-            m->elem_size,
+            m->typechar == 'U' ? m->elem_size / 4 : m->elem_size,
             m->fortran_order ? "True": "False",
             shape );
 
@@ -215,6 +215,8 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     if( !isdigit( (unsigned char) descr[2] ))
         goto header_error;
     m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
+    if( m->typechar == 'U' )  /* numpy counts characters of 4 bytes */
+        m->elem_size *= 4;
     if( m->elem_size == 0 )
         goto header_error;
 
-- 
2.43.0


From 69f7701ed6fe2f5c7ebb4988d93d7f9f1a9995d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 30/52] fix: names inside a npz archive were used as format
 strings

... with no arguments, so a '%s' or '%n' in the archive could crash the program, and a
name of more than 80 characters hit an assert. Take the names literally. Also avoid
quadratic time and deep recursion for archives with many members.
---
 npy_array/npy_array_list.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 73663fa..fedc515 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -58,15 +58,15 @@ static npy_array_list_t * npy_array_list_new()
 
 void npy_array_list_free( npy_array_list_t *list )
 {
-    if( !list )
-        return;
-    if( list->array )
-        npy_array_free( list->array );
-    if( list->filename )
-        free( list->filename );
-    if( list->next )
-        npy_array_list_free( list->next );
-    free( list );
+    while( list ){
+        npy_array_list_t *next = list->next;
+        if( list->array )
+            npy_array_free( list->array );
+        if( list->filename )
+            free( list->filename );
+        free( list );
+        list = next;
+    }
 }
 
 static char * _va_args_filename( const char *filename, va_list ap1 )
@@ -208,6 +208,7 @@ npy_array_list_t * npy_array_list_load( const char *filename )
     }
 
     npy_array_list_t *list = NULL;
+    npy_array_list_t **tail = &list;
     for( int i = 0; i < zip_get_num_entries( zip, 0 ); i++ ){
         zip_file_t *fp = zip_fopen_index( zip, i, 0 ); /* FIXME Better checks */
         if (!fp ){
@@ -220,7 +221,20 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             fprintf(stderr, "Warning: Cannot read matrix.\n");
             continue;
         }
-        list = npy_array_list_append( list, arr, zip_get_name( zip, i, 0 ));
+        /* The name comes from the file, so it can neither be a format string nor be expected to be short */
+        const char *name = zip_get_name( zip, i, 0 );
+        npy_array_list_t *new_elem = npy_array_list_new();
+        if( new_elem && name && (new_elem->filename = malloc( strlen(name) + 1 )) )
+            strcpy( new_elem->filename, name );
+        if( !new_elem || !new_elem->filename ){
+            fprintf(stderr, "Warning: Cannot add internal file of index %d in archive '%s'.\n", i, filename );
+            npy_array_free( arr );
+            free( new_elem );
+            continue;
+        }
+        new_elem->array = arr;
+        *tail = new_elem;
+        tail = &new_elem->next;
     }
 
     zip_close(zip);
-- 
2.43.0


From 0eb5b5070a8f49453d07ae29f36af52c233d8b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 31/52] fix: adding an array with a name longer than the limit
 aborted the program

A warning is printed for this, and then an assert failed. Leave the list as it was,
like when out of memory.
---
 npy_array/npy_array_list.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index fedc515..e0dca11 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -87,7 +87,8 @@ static char * _va_args_filename( const char *filename, va_list ap1 )
     }
 
     char *real_filename = malloc( (len+1) * sizeof(char));
-    assert( real_filename );
+    if( !real_filename )
+        return NULL;
 
     vsprintf( real_filename, filename, ap2 );
     va_end( ap2 );
@@ -124,8 +125,11 @@ npy_array_list_t * npy_array_list_ ##oper ( npy_array_list_t *list, npy_array_t
     va_list ap1; \
     va_start( ap1, filename ); \
     new_list->filename = _va_args_filename( filename, ap1 ); \
-    assert( new_list->filename ); \
     va_end( ap1 ); \
+    if ( !new_list->filename ) { \
+        free( new_list ); \
+        return list; \
+    } \
 \
     return _list_ ##oper ( list, new_list ); \
 } 
-- 
2.43.0


From 2b301fb85184328c0bb1e19492a2c947219b53ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 32/52] fix: corrupt data in npz archives was loaded without
 noticing the wrong checksum

libzip compares the checksum when the end of the file is read, which was not done.
---
 npy_array/npy_array_list.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index e0dca11..69774a0 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -202,6 +202,16 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
     return n;
 }
 
+/* The checksum is not verified by libzip before we have been at the end of the file */
+static bool read_to_end( zip_file_t *fp )
+{
+    char buf[_BUFSIZE];
+    zip_int64_t n;
+    while( (n = zip_fread( fp, buf, sizeof buf )) > 0 )
+        ;
+    return n == 0;
+}
+
 npy_array_list_t * npy_array_list_load( const char *filename )
 {
     /* FIXME: better check. what went wrong? */
@@ -220,6 +230,10 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             continue;
         }
         npy_array_t *arr = _read_matrix( fp, &read_zip );
+        if( arr && !read_to_end( fp )){
+            npy_array_free( arr );
+            arr = NULL;
+        }
         zip_fclose( fp );
         if(!arr) {
             fprintf(stderr, "Warning: Cannot read matrix.\n");
-- 
2.43.0


From dc73280816ecafac9ef2ccece525f39512a26496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 33/52] fix: the compression asked for was not used when saving
 a npz archive

It was set for a file index that did not exist yet, so the default (deflate) was
always used.
---
 npy_array/npy_array_list.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 69774a0..99f630d 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -163,9 +163,6 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
-        if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
-            /* what is wrong? */
-        }
         /* if the filename is not set, set one. However.. if the list was created with append and prepend,
          * this will never be true. */
         if(!iter->filename)
@@ -193,6 +190,8 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
         // fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
         
+        if ( zip_set_file_compression(zip, idx, comp, comp_flags) < 0)
+            fprintf( stderr, "Warning: Cannot set compression of '%s'. %s\n", iter->filename, zip_strerror( zip ));
         n++;
     }
     if ( zip_close( zip ) < 0 ){
-- 
2.43.0


From 0b8e43706a9d0f91b6a9017c84723461a4bd567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 34/52] fix: a npz archive that cannot be written aborted the
 program or leaked

Opening a file that is not writable hit an assert, which neuralnet_save() promises not
to do. When closing failed, the archive was leaked and reported as saved. An array
that could not be added (same name twice) was counted as saved and leaked.
---
 npy_array/npy_array_list.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 99f630d..fc94065 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -159,7 +159,10 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     /* FIXME: Better test */
     zip_t *zip = zip_open( filename, ZIP_CREATE | ZIP_TRUNCATE, NULL );
-    assert( zip );
+    if( !zip ){
+        fprintf(stderr, "Cannot open '%s' for writing.\n", filename );
+        return 0;
+    }
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
@@ -176,20 +179,32 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         size_t datasize = npy_array_calculate_datasize( m );
 
         char *matrix_npy_format = malloc( hlen + datasize );
-        assert( matrix_npy_format );
+        if( !matrix_npy_format ){
+            fprintf(stderr, "Cannot allocate memory for '%s'.\n", iter->filename );
+            zip_discard( zip );
+            return 0;
+        }
         memcpy( matrix_npy_format, header, hlen );
         memcpy( matrix_npy_format + hlen, m->data, datasize );
 
         /* FIXME: Check for error */
         zip_source_t *s = zip_source_buffer_create( matrix_npy_format, hlen + datasize, 1, NULL);
-        assert(s); 
+        if( !s ){
+            fprintf(stderr, "Cannot allocate memory for '%s'.\n", iter->filename );
+            free( matrix_npy_format );
+            zip_discard( zip );
+            return 0;
+        }
 
         int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
+        if( idx < 0 ){
+            fprintf( stderr, "Warning: Cannot add '%s'. %s\n", iter->filename, zip_strerror( zip ));
+            zip_source_free( s );
+            continue;
+        }
         if( idx != n )
             fprintf( stderr, "Warning: Index and counter mismatch.");
 
-        // fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
-        
         if ( zip_set_file_compression(zip, idx, comp, comp_flags) < 0)
             fprintf( stderr, "Warning: Cannot set compression of '%s'. %s\n", iter->filename, zip_strerror( zip ));
         n++;
@@ -197,6 +212,8 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
     if ( zip_close( zip ) < 0 ){
         fprintf(stderr, "What? no close?\n");
         fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
+        zip_discard( zip );
+        return 0;
     }
     return n;
 }
-- 
2.43.0


From df00386d0195acfc84c27a8b116f02cbb1f5d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 35/52] fix: loading an inconsistent model file crashed or gave
 a network of garbage

Sizes that do not match were only warned about before memory was overwritten, missing
or too few activation names were read out of bounds, and double precision or big
endian numbers were taken to be floats. Refuse such files; neuralnet_load() returns
NULL on failure.
---
 src/neuralnet.c | 123 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 87 insertions(+), 36 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 98de8cb..3ccca94 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -97,12 +97,21 @@ weight_alloc_error:
     return false;
 }
 
-static char ** _activation_names_from_npy( npy_array_t *m )
+/* The names of the activations, and NULL (which will be linear) if there are less than n_layers names. */
+static char ** _activation_names_from_npy( const npy_array_t *m, int n_layers )
 {
-    char ** ret = calloc( m->shape[0], sizeof( char* ));
-    assert( ret );
+    if( m->ndim != 1 || m->shape[0] < 1 || m->shape[0] > (size_t) n_layers )
+        return NULL;
+
+    char ** ret = calloc( n_layers, sizeof( char* ));
+    if( !ret )
+        return NULL;
+
     ret[0] = calloc( m->shape[0] * (m->elem_size + 1), sizeof(char) );  /* sizeof(char) is always 1! */
-    assert( ret[0] );
+    if( !ret[0] ){
+        free( ret );
+        return NULL;
+    }
 
     for( unsigned int i = 1; i < m->shape[0]; i++ )
         ret[i] = ret[0] + i * (m->elem_size + 1);
@@ -113,6 +122,53 @@ static char ** _activation_names_from_npy( npy_array_t *m )
     return ret;
 }
 
+static bool _is_native_float32( const npy_array_t *m )
+{
+    const int one = 1;
+    const char foreign = *(const char*) &one == 1 ? '>' : '<';
+    return m->typechar == 'f' && m->elem_size == sizeof(float) && m->endianness != foreign;
+}
+
+/* Can the arrays be the weights and biases of a neural network? */
+static bool _check_weights_and_biases( int n_layers, npy_array_t **weights_and_biases )
+{
+    for( int i = 0; i < n_layers; i++ ){
+        const npy_array_t *weights = weights_and_biases[i*2];
+        const npy_array_t *bias    = weights_and_biases[i*2+1];
+
+        if( weights->ndim != 2 ){
+            fprintf(stderr, "Weight npy array not 2-dimensional in layer %d (It's %dD!)\n", i, weights->ndim);
+            return false;
+        }
+        if( bias->ndim != 1 ){
+            fprintf(stderr, "Bias npy array not 1-dimensional in layer %d (It's %dD!)\n", i, bias->ndim);
+            return false;
+        }
+        /* FIXME in far future: If the matrices are fortran order, reorganize them. Hmmm ... maybe
+         * such feature belong in npy_array? */ 
+        if( weights->fortran_order || bias->fortran_order ){
+            fprintf(stderr, "Array in fortran order in layer %d.\n", i );
+            return false;
+        }
+        if( weights->shape[0] > INT_MAX || weights->shape[1] > INT_MAX ){
+            fprintf(stderr, "Too large weight npy array in layer %d.\n", i );
+            return false;
+        }
+        if( weights->shape[1] != bias->shape[0] ){
+            fprintf(stderr, "Bias size does not match weight size in layer %d. Weight: (%zu,%zu) Bias (%zu)\n",
+                    i, weights->shape[0], weights->shape[1], bias->shape[0]);
+            return false;
+        }
+        if( i > 0 && weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
+            fprintf( stderr, "Weight size mismatch between layer %d and %d.\n", (i-1), i );
+            fprintf( stderr, "* Prev layer output size: %zu\n", weights_and_biases[(i-1)*2]->shape[1] ); 
+            fprintf( stderr, "* This layer  input size: %zu\n", weights->shape[0] ); 
+            return false;
+        }
+    }
+    return true;
+}
+
 /**
   @brief Create a new neural network based on specifications in file.
   @param filename Filename to neural network file.
@@ -122,7 +178,9 @@ neuralnet_t *neuralnet_load( const char *filename)
 {
     npy_array_list_t  *array_list          = NULL;
     npy_array_t      **weights_and_biases  = NULL;
+    npy_array_t       *activation_names    = NULL;
     char             **activation_funcs    = NULL;
+    int               *sizearray           = NULL;
     int                wb_idx              = 0;
     neuralnet_t       *nn                  = NULL;
 
@@ -144,27 +202,40 @@ neuralnet_t *neuralnet_load( const char *filename)
 
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ) {
         npy_array_t *m = iter->array;
-        if( m->typechar == 'f' )
+        if( _is_native_float32( m ) )
             weights_and_biases[wb_idx++] = m;
-        else if( m->typechar == 'S' )
-            activation_funcs = _activation_names_from_npy( m );
+        else if( m->typechar == 'S' && !activation_names )
+            activation_names = m;
         else {
             fprintf( stderr, "Element type of numpy array is neither 'float32' or ascii charaters. Cannot open file '%s'.\n", filename );
             goto load_error;
         }
     }
 
-    assert( (wb_idx % 2) == 0 );  /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
-
+    /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
     int n_layers = wb_idx / 2;
-    {  /* An added scope to please 'goto' */
-        int sizearray[ n_layers + 1 ];
-        sizearray[0] = weights_and_biases[0]->shape[0];
-        for ( int i = 1; i <= n_layers ; i++ ) 
-            sizearray[i] = weights_and_biases[ (i - 1) * 2 ]->shape[1];
+    if( n_layers < 1 || (wb_idx % 2) != 0 || !activation_names ){
+        fprintf( stderr, "The arrays in '%s' are not a weight and a bias for each layer, and the names of the activations.\n", filename );
+        goto load_error;
+    }
+
+    if( !_check_weights_and_biases( n_layers, weights_and_biases ))
+        goto load_error;
 
-        nn = neuralnet_create( n_layers, sizearray, activation_funcs );
+    if( !(activation_funcs = _activation_names_from_npy( activation_names, n_layers )) ){
+        fprintf( stderr, "Cannot read the names of the activations in '%s'.\n", filename );
+        goto load_error;
+    }
+
+    if( !(sizearray = malloc( (n_layers + 1) * sizeof(int) )) ){
+        fprintf( stderr, "Cannot allocate temporary array for sizes.\n" );
+        goto load_error;
     }
+    sizearray[0] = weights_and_biases[0]->shape[0];
+    for ( int i = 1; i <= n_layers ; i++ ) 
+        sizearray[i] = weights_and_biases[ (i - 1) * 2 ]->shape[1];
+
+    nn = neuralnet_create( n_layers, sizearray, activation_funcs );
 
     if( !nn ) { 
         /* Oh no! FIXME: Check! */
@@ -178,39 +249,19 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *weights   = weights_and_biases[i*2];
         npy_array_t *bias      = weights_and_biases[i*2+1];
 
-        /* Some basic checks, but just warnings. */
-        if( weights->ndim != 2 )
-            fprintf(stderr, "WARNING: weight npy array not 2-dimensional in layer %d (It's %dD!)\n", i, weights->ndim);
-        if( bias->ndim != 1 )
-            fprintf(stderr, "WARNING: bias npy array not 1-dimensional in layer %d (It's %dD!)\n", i, bias->ndim);
-        if( weights->shape[1] != bias->shape[0] )
-            fprintf(stderr, "WARNING: bias size does not match weight size in layer %d. Weight: (%ld,%ld) Bias (%ld)\n",
-                    i, weights->shape[0], weights->shape[1], bias->shape[0]);
-        if( i > 0 ){
-            if( weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
-                fprintf( stderr, "WARNING: weight size mismatch between layer %d and %d.", (i-1), i );
-                fprintf( stderr, "* Prev layer output size: %ld\n", weights_and_biases[(i-1)*2]->shape[1] ); 
-                fprintf( stderr, "* This layer  input size: %ld\n", weights->shape[0] ); 
-            }
-        }
-
         memcpy( nn->layer[i].weight, weights->data, weights->shape[0] * weights->shape[1] * sizeof(float));
         /* Debug 
         print_matrix( weights->shape[0], weights->shape[1], (float*) weights->data );
         print_matrix( nn->layer[i].n_input, nn->layer[i].n_output, nn->layer[i].weight );
         */
-        memset( nn->layer[i].bias, 0,   nn->layer[i].n_output * sizeof(float));
         memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));
-        /* FIXME in far future: If the matrices are fortran order, reorganize them. Hmmm ... maybe
-         * such feature belong in npy_array? */ 
-        assert( weights->fortran_order == false );
-        assert( bias->fortran_order == false );
     }
 
 load_error:
     /* Clean up */
     if( array_list )        npy_array_list_free( array_list );
     if( weights_and_biases) free( weights_and_biases );
+    if( sizearray )         free( sizearray );
 
     if( activation_funcs ){
         free( activation_funcs[0] );
-- 
2.43.0


From 2197f190270557adfb932e2efdcdd19197789374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 36/52] fix: sample offsets overflowed in data sets of 2^31
 numbers and above

---
 src/evaluate.c                | 6 +++---
 src/neuralnet_predict_batch.c | 4 ++--
 src/optimizer.c               | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 9e843d0..c28b898 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -38,14 +38,14 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     #pragma omp parallel for reduction(+:local_results[:])
     for ( int i = 0; i < n_valid_samples; i++ ){
 #ifdef USE_CBLAS
-        float *y_pred = predictions + (i*n_output);
+        float *y_pred = predictions + ((size_t) i*n_output);
 #else
         SIMD_ALIGN(float y_pred[n_output]);
-        neuralnet_predict( nn, valid_X + (i*n_input), y_pred );
+        neuralnet_predict( nn, valid_X + ((size_t) i*n_input), y_pred );
 #endif
         float *res = local_results;
         for ( int j = 0; j < n_metrics; j++ ){
-            float _error = metrics[j]( n_output, y_pred, valid_Y + (i*n_output));
+            float _error = metrics[j]( n_output, y_pred, valid_Y + ((size_t) i*n_output));
             *res++ += _error;
         }
     }
diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 5401ed0..bcf0684 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -23,7 +23,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
     const int n_output = nn->layer[nn->n_layers-1].n_output;
 #pragma omp parallel for
     for ( int i = 0; i < n_samples; i++ )
-        neuralnet_predict( nn, inputs + i*n_inputs, output + i*n_output);
+        neuralnet_predict( nn, inputs + (size_t) i*n_inputs, output + (size_t) i*n_output);
 }
 #else
 /* This number depends on your system - how much memory do you want to stack allocate?
@@ -65,7 +65,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
         const int n_output = nn->layer[nn->n_layers-1].n_output;
         // fprintf(stderr, "Warning: Stack limit reached with %d samples - recursing.\n", n_samples);
         neuralnet_predict_batch( nn, half, inputs, output );
-        neuralnet_predict_batch( nn, n_samples - half, inputs+(half*n_inputs), output+(half*n_output) );
+        neuralnet_predict_batch( nn, n_samples - half, inputs+((size_t) half*n_inputs), output+((size_t) half*n_output) );
         return;    
     }
 
diff --git a/src/optimizer.c b/src/optimizer.c
index f0aa9f9..8efdda8 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -73,7 +73,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-        neuralnet_backpropagation( nn, train_X + (opt->pivot[idx] * n_input), train_Y + (opt->pivot[idx] * n_output), grad );
+        neuralnet_backpropagation( nn, train_X + ((size_t) opt->pivot[idx] * n_input), train_Y + ((size_t) opt->pivot[idx] * n_output), grad );
         /* When using OpenMP, OpenMP will not align stack allocated arrays -- we therefore
            have to use `_unaligned` for this accumulation. :-(  */
         vector_accumulate_unaligned( n_parameters, batchgrad, grad );
-- 
2.43.0


From 07ab65a02d4b98a300f1e48db854cc31229513ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 37/52] fix: mean metrics were wrong for data sets of more than
 2^24 samples

---
 src/evaluate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c28b898..8595212 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -25,8 +25,8 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     while ( *mf_ptr++ )
         n_metrics++;
 
-    float local_results[n_metrics];
-    memset( local_results, 0, n_metrics * sizeof(float));
+    double local_results[n_metrics]; /* A float stops counting at 2^24 */
+    memset( local_results, 0, n_metrics * sizeof(double));
 #ifdef USE_CBLAS
     float *predictions = calloc( (size_t) n_output * n_valid_samples + 1, sizeof(float));
     if( !predictions ){
@@ -43,7 +43,7 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
         SIMD_ALIGN(float y_pred[n_output]);
         neuralnet_predict( nn, valid_X + ((size_t) i*n_input), y_pred );
 #endif
-        float *res = local_results;
+        double *res = local_results;
         for ( int j = 0; j < n_metrics; j++ ){
             float _error = metrics[j]( n_output, y_pred, valid_Y + ((size_t) i*n_output));
             *res++ += _error;
@@ -55,5 +55,5 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
 #endif
     float *res = results;
     for ( int i = 0; i < n_metrics; i++ )
-        *res++ = local_results[i] / (float) n_valid_samples;
+        *res++ = (float) (local_results[i] / n_valid_samples);
 }
-- 
2.43.0


From 3924617f18ec1ae250552ed85044d113a0f968de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:46 +0000
Subject: [PATCH 38/52] fix: each unknown activation name registered another
 exit handler

---
 src/activation.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 980bd66..b96a4a3 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -90,8 +90,6 @@ static activation_record_t *records = NULL;  /* A linked list of open activation
 
 static activation_func get_activation_func_dynamic( const char *name )
 {
-    atexit(cleanup_dynamic_symbols);
-
     /* strdup() is not ansi c .... */
     size_t len = strlen( name ) + 1;
     char *file_and_symbol_name = malloc( len );
@@ -165,9 +163,10 @@ static activation_func get_activation_func_dynamic( const char *name )
     rec->next = NULL;
 
     /* Find the backmost and append */
-    if( !records )
+    if( !records ){
+        atexit( cleanup_dynamic_symbols );
         records = rec;
-    else {
+    } else {
         activation_record_t *endptr = records;
         while(endptr->next)
             endptr = endptr->next;
-- 
2.43.0


From a2d5d440b3b3da28a4af93c21db2ac88897129e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 39/52] fix: a model file with unreadable arrays was loaded as
 a shorter network

---
 src/neuralnet.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 3ccca94..99c30e8 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -169,6 +169,17 @@ static bool _check_weights_and_biases( int n_layers, npy_array_t **weights_and_b
     return true;
 }
 
+/* npy_array_list_load() leaves out what it cannot read. A network without these is not the one in the file. */
+static bool _is_complete( const char *filename, size_t n_arrays )
+{
+    zip_t *zip = zip_open( filename, ZIP_RDONLY, NULL );
+    if( !zip )
+        return false;
+    zip_int64_t n_members = zip_get_num_entries( zip, 0 );
+    zip_discard( zip );
+    return n_members >= 0 && (zip_uint64_t) n_members == n_arrays;
+}
+
 /**
   @brief Create a new neural network based on specifications in file.
   @param filename Filename to neural network file.
@@ -194,6 +205,10 @@ neuralnet_t *neuralnet_load( const char *filename)
     }
 
     size_t len = npy_array_list_length( array_list );
+    if( !_is_complete( filename, len )){
+        fprintf(stderr, "Cannot read all the arrays in '%s'.\n", filename );
+        goto load_error;
+    }
 
     if (NULL == (weights_and_biases = malloc( len * sizeof( npy_array_t * )))){
         fprintf(stderr, "Cannot allocate temporary array for weights. (This is really unlikely!)\n" );
-- 
2.43.0


From 0386e2075fdf11dcf5abe99fcd4d4ae1a05311cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 40/52] fix: the progress bar was full before the end of a
 large total

---
 src/progress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/progress.c b/src/progress.c
index 66ef09b..fe30b7f 100644
--- a/src/progress.c
+++ b/src/progress.c
@@ -76,7 +76,7 @@ void progress_ascii( int x, int n, const char *fmt, ... )
 	if( w < 1 ) return;
 
 	// Calculuate the ratio of complete-to-incomplete.
-	float ratio = x/(float)n;
+	double ratio = x/(double)n; /* A float would be full too early in a large total */
 	int   c     = ratio * w;
 
 	printf("%s[", label );
-- 
2.43.0


From d2882d794b47c61b8d5fbb3aaba86ef94af941c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 41/52] fix: early stopping never saw an improvement after a
 NaN when greater is better

---
 src/earlystopping.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earlystopping.c b/src/earlystopping.c
index 19d0fcc..ad9e5a3 100644
--- a/src/earlystopping.c
+++ b/src/earlystopping.c
@@ -43,7 +43,7 @@ void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float
 
     float score = epoch_results[idx];
     if (es->greater_is_better) {
-        if ( score > es->best_so_far || es->best_so_far == FLT_MAX ){
+        if ( score > es->best_so_far || (es->best_so_far == FLT_MAX && score == score) ){ /* (never NaN) */
             improvement = true;
             es->best_so_far = score;
         }
-- 
2.43.0


From 7de41a4e038c98095fa2177d221062147ae1c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 42/52] fix: the checkpoint was never written again after a NaN
 when greater is better

---
 src/modelcheckpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 5d2e767..bf70d3e 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -45,7 +45,7 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
 
     float score = epoch_results[idx];
     if (mcp->greater_is_better) {
-        if ( score > mcp->best_so_far || mcp->best_so_far == FLT_MAX ){
+        if ( score > mcp->best_so_far || (mcp->best_so_far == FLT_MAX && score == score) ){ /* (never NaN) */
             if( mcp->verbose )  /* BUG: This gives bullshit the first time */
                 printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-- 
2.43.0


From 0da08753175adf5bd7c614b493a7ed1bed393bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 43/52] fix: the first line of a log was glued to an unfinished
 line of an existing file

---
 src/logger.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/logger.c b/src/logger.c
index f483270..8529a03 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -95,9 +95,15 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
 
     FILE *fp = NULL;
     if ( log->filename )
-        fp = fopen( log->filename, "a" );
+        if ( !(fp = fopen( log->filename, "a+" )) )
+            fp = fopen( log->filename, "a" ); /* Not readable? */
 
     if ( fp ){
+        /* What is there already may end in the middle of a line */
+        int last = fseek( fp, -1, SEEK_END ) == 0 ? fgetc( fp ) : '\n';
+        fseek( fp, 0, SEEK_END );
+        if ( last != '\n' && last != EOF )
+            fputc( '\n', fp );
         write_log_line( fp, log, opt, timeinfo, epoch_results, validation_set_given );
         fclose( fp );
     }
-- 
2.43.0


From c9a2c04e05966f3dff6da5498a3013f0cde6827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:49 +0000
Subject: [PATCH 44/52] fix: the epoch after a line with a zero byte was not
 found in the log

---
 src/logger.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 8529a03..d024625 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -46,11 +46,11 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         char buf[MAX_BUFFER + 1];
         bool line_start = true;
         int  next_epoch = logger->epoch_count;
-        while( fgets( buf, sizeof buf, fp ) ){
+        while( memset( buf, 0, sizeof buf ), fgets( buf, sizeof buf, fp ) ){
             int epoch;
             if( line_start && 1 == sscanf( buf, "[%*d:%*d:%*d] " EPOCH_STR " %d", &epoch ))
                 next_epoch = epoch + 1;
-            line_start = strchr( buf, '\n' ) != NULL;
+            line_start = memchr( buf, '\n', sizeof buf ) != NULL; /* (There can be anything in the line, even '\0') */
         }
         fclose( fp );
         return next_epoch;
-- 
2.43.0


From ab79638a721c0832c71cf4a9ffd969869e5e705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 45/52] fix: a custom activation was opened again and kept once
 more for every use of its name

---
 src/activation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/activation.c b/src/activation.c
index b96a4a3..c37afcc 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -90,6 +90,11 @@ static activation_record_t *records = NULL;  /* A linked list of open activation
 
 static activation_func get_activation_func_dynamic( const char *name )
 {
+    /* It may be open already */
+    for( activation_record_t *iter = records; iter; iter = iter->next )
+        if( !strcmp( iter->activation_name, name ))
+            return iter->func_ptr;
+
     /* strdup() is not ansi c .... */
     size_t len = strlen( name ) + 1;
     char *file_and_symbol_name = malloc( len );
-- 
2.43.0


From a72262f646274a556d8ad2a2d836e4d2abdbb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:12 +0000
Subject: [PATCH 46/52] fix: a save that ran out of memory replaced the model
 by an incomplete one

---
 npy_array/npy_array_list.c | 9 +++++++--
 src/neuralnet.c            | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index fc94065..977b2b1 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -190,8 +190,8 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         /* FIXME: Check for error */
         zip_source_t *s = zip_source_buffer_create( matrix_npy_format, hlen + datasize, 1, NULL);
         if( !s ){
+            /* (Whether libzip has freed the buffer depends on how far it came, so we cannot free it) */
             fprintf(stderr, "Cannot allocate memory for '%s'.\n", iter->filename );
-            free( matrix_npy_format );
             zip_discard( zip );
             return 0;
         }
@@ -199,8 +199,13 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
         if( idx < 0 ){
             fprintf( stderr, "Warning: Cannot add '%s'. %s\n", iter->filename, zip_strerror( zip ));
+            int err = zip_error_code_zip( zip_get_error( zip ));
             zip_source_free( s );
-            continue;
+            if( err == ZIP_ER_EXISTS || err == ZIP_ER_INVAL )
+                continue; /* It is the name */
+            /* Out of memory. Rather keep the archive that may be there already than replace it by half of a new one */
+            zip_discard( zip );
+            return 0;
         }
         if( idx != n )
             fprintf( stderr, "Warning: Index and counter mismatch.");
diff --git a/src/neuralnet.c b/src/neuralnet.c
index 99c30e8..bf08bea 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -466,7 +466,10 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
         Then I cannot free this array in the same way as the others. I need to treat it different when freeing!
         I therefore allocate on heap anyway...)  */
 
-    int n_saved = npy_array_list_save( real_filename, save );
+    /* If there was no memory for some of them, then rather keep the file that may be there already. */
+    int n_saved = 0;
+    if( npy_array_list_length( save ) == (size_t) nn->n_layers*2 + 1 )
+        n_saved = npy_array_list_save( real_filename, save );
     if( n_saved != (nn->n_layers*2 + 1) )
         printf("Warning: Arrays written: %d  !=  2 x n_layers + 1     (n_layers=%d)\n", n_saved, nn->n_layers );
 
-- 
2.43.0


From a5e6b6d70f516cdbd4cb95153c83a3130bee41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 47/52] fix: an optimizer of one's own without a free function
 of its own was freed twice

---
 src/optimizer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimizer.h b/src/optimizer.h
index e2df01e..76cbae6 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -60,7 +60,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
         return NULL; \
     } \
     newopt->opt.run_epoch = name ## _run_epoch; \
-    newopt->opt.free = (void(*)(optimizer_t*)) free; \
+    newopt->opt.free = NULL; /* Set this in the constructor if there is more than the struct itself to free */ \
     \
     /* First the configs */ \
     newopt->opt.nn         = nn; \
@@ -128,7 +128,8 @@ void optimizer_check_sanity( optimizer_t * opt);
 
 static inline void optimizer_free( optimizer_t *opt )
 {
-    opt->free( opt );
+    if ( opt->free )
+        opt->free( opt );
     if ( opt->pivot )
         free( opt->pivot );
     free( opt );
-- 
2.43.0


From b600be6f8f79d1d2585cd2988aa96b40a06d5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 48/52] fix: evaluating without any metrics crashed

---
 src/evaluate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8595212..681b494 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -24,6 +24,8 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     int n_metrics = 0;
     while ( *mf_ptr++ )
         n_metrics++;
+    if ( n_metrics == 0 )
+        return;
 
     double local_results[n_metrics]; /* A float stops counting at 2^24 */
     memset( local_results, 0, n_metrics * sizeof(double));
-- 
2.43.0


From 9fbfa790eaa5d1aff9d06672818b382397ec3bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 49/52] fix: CBLAS batch prediction applied custom activations
 to all samples as one vector

---
 src/neuralnet_predict_batch.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index bcf0684..b38c3b8 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -3,7 +3,6 @@
  vim: ts=4 sw=4 softtabstop=4 expandtab 
 */
 #include "neuralnet_predict_batch.h"
-#include "activation.h"
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -109,10 +108,6 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
             memcpy( activations[i+1] + j*layer_ptr->n_output, layer_ptr->bias, size );
     }
 
-    static activation_func softmax = NULL; /* Keep it static such that get_() is called only once! */
-    if( !softmax )
-        softmax = get_activation_func( "softmax" ); /* Slow? */
-
     /* Then we do the forward calculation */
     for( int i = 0; i < nn->n_layers; i++){
         const layer_t *layer_ptr = nn->layer + i;
@@ -128,15 +123,10 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
                 activations[i+1],    /* C    (13) */
                 layer_ptr->n_output  /* ldc  (14) */
                 );
-        /* Activation */
-        /* ( I really hope the silly if-condition doesn't kill performance. */
-        if ( layer_ptr->activation_func == softmax ){
-            float *out = activations[i+1];
-            for ( int j = 0; j < n_samples; j++, out += layer_ptr->n_output)
-                layer_ptr->activation_func ( layer_ptr->n_output, out );
-        } else {
-            layer_ptr->activation_func ( layer_ptr->n_output * n_samples, activations[i+1] );
-        }
+        /* Activation. One sample at a time, as softmax (and also a custom activation) depends on the whole row. */
+        float *out = activations[i+1];
+        for ( int j = 0; j < n_samples; j++, out += layer_ptr->n_output)
+            layer_ptr->activation_func ( layer_ptr->n_output, out );
     }
 }
 #endif /* USE_CBLAS */
-- 
2.43.0


From 143bde23597f0ce2ea9d5a25888e6a0a8f89965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 50/52] fix: a PREDICTION_ONLY build could not be linked

---
 src/neuralnet.c | 5 +++++
 src/neuralnet.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index bf08bea..738c23f 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -672,6 +672,8 @@ void neuralnet_get_parameters( const neuralnet_t *nn, float *params )
     }
 }
 
+#endif /* PREDICTION_ONLY */
+
 /**
   @brief: Creates a new neural network structure and allocates memory for the parameters.
 
@@ -754,13 +756,16 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
         }
     }
 
+#ifndef PREDICTION_ONLY
     /* We really don't want a dangling pointer for the loss function */
     nn->loss = NULL;
     /* The user should set the loss function by calling `neuralnet_set_loss( nn, "nameofloss")` */
+#endif
 
     return nn;
 }
 
+#ifndef PREDICTION_ONLY
 /* functions for initializing weights of fresh neural networks */
 
 /* Returns a random float number from -1 to +1 with a uniform probability distribution. */
diff --git a/src/neuralnet.h b/src/neuralnet.h
index 5131704..b2472b2 100644
--- a/src/neuralnet.h
+++ b/src/neuralnet.h
@@ -30,11 +30,11 @@ struct _neuralnet_t
 neuralnet_t * neuralnet_load             ( const char *filename );
 void          neuralnet_free             (       neuralnet_t *nn); 
 void          neuralnet_predict          ( const neuralnet_t *nn, const float *input, float *output);
-#ifndef PREDICTION_ONLY
 /* Two macros to hide the compound literals */
 #define INT_ARRAY(...) (int[]){__VA_ARGS__}
 #define STR_ARRAY(...) (char*[]){__VA_ARGS__, NULL}
 neuralnet_t * neuralnet_create           ( const int n_layers, int sizes[], char *activation_funcs[] );
+#ifndef PREDICTION_ONLY
 void          neuralnet_initialize       (       neuralnet_t *nn, char *initializers[] );
 void          neuralnet_set_loss         (       neuralnet_t *nn, const char *loss_name );
 void          neuralnet_backpropagation  ( const neuralnet_t *nn, const float *input, const float *desired, float *gradient);
-- 
2.43.0


From 27baa7be8325d0e6148c888aaab3b3165c5672d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:03 +0000
Subject: [PATCH 51/52] fix: npy_array_save() did not notice when the buffered
 data could not be written

---
 npy_array/npy_array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 52715ef..14df019 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -399,7 +399,11 @@ void npy_array_save( const char *filename, const npy_array_t *m )
     if( chk != datasize){
         fprintf(stderr, "Could not write all data.\n");
     }
-    fclose(fp);
+    /* What is still buffered is first written here */
+    if( fclose(fp) != 0 ){
+        fprintf(stderr,"Cannot write to '%s'.\n", filename );
+        perror("Error");
+    }
 }
 
 void npy_array_free( npy_array_t *m )
-- 
2.43.0


From bd32a7d64eb8a3d66657153dc7525af69f5bf8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:15 +0000
Subject: [PATCH 52/52] fix: a unicode element size that does not fit in size_t
 is refused, not wrapped

---
 npy_array/npy_array.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 14df019..6f32aeb 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -215,8 +215,11 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     if( !isdigit( (unsigned char) descr[2] ))
         goto header_error;
     m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
-    if( m->typechar == 'U' )  /* numpy counts characters of 4 bytes */
+    if( m->typechar == 'U' ){ /* numpy counts characters of 4 bytes */
+        if( m->elem_size > (size_t) PTRDIFF_MAX / 4 )
+            goto header_error;
         m->elem_size *= 4;
+    }
     if( m->elem_size == 0 )
         goto header_error;
 
-- 
2.43.0

