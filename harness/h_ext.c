/* C26 (ext): what users add themselves - optimizers, callbacks, metrics, losses - is called as documented.
 * C27 (pipeline): numpy file -> training loop with all callbacks -> checkpoint -> reload, as in the examples; resumed training. */
#include "h.h"
#include "ref.h"
#include "acct.h"
#include "optimizer_implementations.h"
#include "matrix_operations.h"
#include "evaluate.h"
#include "neuralnet_predict_batch.h"
#include "loss.h"
#include "callback.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "logger.h"
#include "npy_array.h"
#include <pthread.h>
#include <omp.h>
#ifdef USE_CBLAS
#define H_BLAS 1
#else
#define H_BLAS 0
#endif
static const char *metric_names[7] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy", "binary_accuracy", "categorical_accuracy" };
static void par_copy( const neuralnet_t *nn, float *p )
{
    for ( int l = 0; l < nn->n_layers; l++ ) {
        int m = nn->layer[l].n_output; size_t k = (size_t) m * nn->layer[l].n_input;
        memcpy( p, nn->layer[l].bias, m * 4 ); p += m; memcpy( p, nn->layer[l].weight, k * 4 ); p += k;
    }
}
static size_t n_par( const neuralnet_t *nn ) { size_t s = 0; for ( int l = 0; l < nn->n_layers; l++ ) s += (size_t) ( nn->layer[l].n_input + 1 ) * nn->layer[l].n_output; return s; }

/* ------------------------------------------------------------------ what the "user" wrote */
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static struct {
    optimizer_t *opt; neuralnet_t *nn; int n, ni, no, bs; bool shuffle; const float *X, *Y; size_t np;
    int epochs, freed, batches, progress; float scale; bool after; int skip;
    /* metrics: calls, sums, rows seen, in two data sets */
    int nm; const float *VX, *VY; int nv; long mcalls[3]; double msum[3]; int foreign, wrongn, wrongpred; unsigned char *seen[3]; 
    long lcalls; int lforeign;
} U;
static int row_of( const float *y )
{   /* training rows from 0, validation rows from n */
    if ( y >= U.Y && y < U.Y + (size_t) U.n * U.no ) { if (( y - U.Y ) % U.no == 0 ) return ( y - U.Y ) / U.no; return -1; }
    if ( U.nv && y >= U.VY && y < U.VY + (size_t) U.nv * U.no ) { if (( y - U.VY ) % U.no == 0 ) return U.n + ( y - U.VY ) / U.no; return -1; }
    for ( int i = 0; i < U.n; i++ ) if ( !memcmp( y, U.Y + (size_t) i * U.no, U.no * 4 )) return i;      /* a copy is fine as well */
    for ( int i = 0; i < U.nv; i++ ) if ( !memcmp( y, U.VY + (size_t) i * U.no, U.no * 4 )) return U.n + i;
    return -1;
}
static float user_metric( int k, int n, const float *p, const float *y )
{
    double v = 0; for ( int i = 0; i < n; i++ ) v += k == 0 ? fabs( (double) p[i] - y[i] ) * ( i + 1 ) : k == 1 ? (double) p[i] * y[i] : p[i] > y[i];
    float f = k == 2 ? v : (float) v;
    pthread_mutex_lock( &mtx );
    int r = row_of( y ); if ( r < 0 ) U.foreign++; else if ( U.seen[k][r] < 255 ) U.seen[k][r]++;
    if ( n != U.no ) U.wrongn++;
    U.mcalls[k]++;
    pthread_mutex_unlock( &mtx );
    return f;
}
static float um0( const int n, const float *p, const float *y ) { return user_metric( 0, n, p, y ); }
static float um1( const int n, const float *p, const float *y ) { return user_metric( 1, n, p, y ); }
static float um2( const int n, const float *p, const float *y ) { return user_metric( 2, n, p, y ); }
static const metric_func ums[3] = { um0, um1, um2 };
/* a loss of one's own: asymmetric, weighted by position */
static void user_loss( const unsigned n, const float *p, const float *y, float *g )
{
    for ( unsigned i = 0; i < n; i++ ) { float d = p[i] - y[i]; g[i] = U.scale * d * (float)( i + 1 ) * ( d > 0 ? 2.0f : 1.0f ); }
    pthread_mutex_lock( &mtx ); U.lcalls++; if ( row_of( y ) < 0 || (int) n != U.no ) U.lforeign++; pthread_mutex_unlock( &mtx );
}
static void user_progress( int x, int n, const char *fmt, ... ) { (void) fmt; (void) x; (void) n; U.progress++; }

OPTIMIZER_DECLARE( mine );
typedef struct { float lr; int power; } mine_properties_t;
#define MINE_PROPERTIES(...) &((mine_properties_t) { .lr = 0.01f, .power = 1, __VA_ARGS__ })
struct _mine_t { optimizer_t opt; float lr; int power; float *buf; char canary[64]; };
static void mine_free( optimizer_t *o ) { U.freed++; if ( o != U.opt ) U.freed += 100; free( ((mine_t*) o)->buf ); }
OPTIMIZER_DEFINE( mine,
    mine_properties_t *p = properties;
    newopt->lr = p->lr;
    newopt->power = p->power;
    newopt->buf = calloc( neuralnet_total_n_parameters( nn ), sizeof(float) );
    memset( newopt->canary, 0x5a, sizeof newopt->canary );
    newopt->opt.free = mine_free;
)
/* the same without a free function of its own, and with a constructor that has its own idea of the common settings */
static struct { int bs; signed char shuffle; bool progress, metrics; void (*pf)( int x, int n, const char *fmt, ...); metric_func *mf; } own_way;
OPTIMIZER_DECLARE( bare );
struct _bare_t { optimizer_t opt; float lr; int power; float *buf; char canary[64]; };
OPTIMIZER_DEFINE( bare,
    newopt->lr = ((mine_properties_t*) properties)->lr;
    newopt->power = ((mine_properties_t*) properties)->power;
    newopt->buf = NULL;
    memset( newopt->canary, 0x5a, sizeof newopt->canary );
    if ( own_way.bs ) newopt->opt.batchsize = own_way.bs;
    if ( own_way.shuffle >= 0 ) newopt->opt.shuffle = own_way.shuffle;
    if ( own_way.progress ) newopt->opt.progress = own_way.pf;
    if ( own_way.metrics ) newopt->opt.metrics = own_way.mf;
)
static bool canary_ok( const mine_t *m ) { for ( size_t i = 0; i < sizeof m->canary; i++ ) if ( m->canary[i] != 0x5a ) return false; return true; }
/* mean gradient of rows idx[0..k) by neuralnet_backpropagation(), in double */
static void mean_gradient( const unsigned *idx, int k, double *g, double *mag )
{
    gbuf t = gb_new( U.np, 0 ); memset( g, 0, U.np * 8 ); memset( mag, 0, U.np * 8 );
    for ( int i = 0; i < k; i++ ) {
        neuralnet_backpropagation( U.nn, U.X + (size_t) idx[i] * U.ni, U.Y + (size_t) idx[i] * U.no, t.p );
        for ( size_t j = 0; j < U.np; j++ ) { g[j] += t.p[j]; mag[j] += fabs( (double) t.p[j] ); }
    }
    for ( size_t j = 0; j < U.np; j++ ) { g[j] /= k; mag[j] /= k; }
    gb_free( &t );
}
static void mine_run_epoch( optimizer_t *opt, const unsigned n, const float *X, const float *Y )
{
    U.epochs++;
    if ( opt != U.opt || (int) n != U.n || X != U.X || Y != U.Y ) { viol( "optimizer", "run_epoch was called with other arguments than optimizer_run_epoch" ); return; }
    mine_t *m = (mine_t*) opt;
    unsigned char *seen = calloc( n, 1 ); bool perm = true;
    for ( unsigned i = 0; i < n; i++ ) { if ( opt->pivot[i] >= n || seen[opt->pivot[i]]++ ) perm = false; if ( !U.shuffle && opt->pivot[i] != i ) perm = false; }
    free( seen );
    if ( !perm ) { viol( "order", "the order of the %u samples is not %s", n, U.shuffle ? "a permutation" : "that of the file" ); return; }
    gbuf g = gb_new( U.np, rndi( 0, 3 ) * 16 ), up = gb_new( U.np, rndi( 0, 3 ) * 16 ); float *before = malloc( U.np * 4 ), *after = malloc( U.np * 4 ); double *rg = malloc( U.np * 8 ), *mag = malloc( U.np * 8 );
    unsigned i = 0, calls = 0;
    if ( U.skip ) i = U.skip < (int) n ? U.skip : 0;                 /* (an optimizer may leave out samples) */
    while ( i < n ) {
        unsigned i0 = i; int expect = (int)( n - i ) < opt->batchsize ? (int)( n - i ) : opt->batchsize;
        int again = chance( 0.1 ) ? 2 : 1;
        for ( int a = 0; a < again; a++ ) {                          /* the same batch twice, e.g. for a line search */
            i = i0; gb_poison( &g ); scribble( rndi( 0, 2 )); par_copy( U.nn, before );
            optimizer_calc_batch_gradient( opt, n, X, Y, &i, g.p ); calls++;
            par_copy( U.nn, after );
            if ( memcmp( before, after, U.np * 4 )) { viol( "gradient", "computing a gradient changed the parameters" ); goto out; }
            if ( i != i0 + expect ) { viol( "gradient", "the position went from %u to %u instead of %u (%u samples, batches of %d)", i0, i, i0 + expect, n, opt->batchsize ); goto out; }
            if ( !gb_intact( &g )) { viol( "overwrite", "memory beside the gradient was written" ); goto out; }
            mean_gradient( opt->pivot + i0, expect, rg, mag ); double top = 0; for ( size_t j = 0; j < U.np; j++ ) if ( mag[j] > top ) top = mag[j];
            for ( size_t j = 0; j < U.np; j++ ) if ( top < 1e15 && isfinite( rg[j] ) && !( fabs( g.p[j] - rg[j] ) <= 1e-5 * mag[j] + 1e-6 * top + 1e-37 )) {
                viol( "gradient", "element %zu of the mean gradient of %d samples from %u is %.9g instead of %.9g", j, expect, i0, g.p[j], rg[j] ); goto out; }
            stat_add( "batch_gradients_checked", 1 );
        }
        for ( size_t j = 0; j < U.np; j++ ) up.p[j] = -m->lr * ( m->power == 2 ? g.p[j] * fabsf( g.p[j] ) : g.p[j] );
        neuralnet_update( U.nn, up.p );
        if ( m->buf ) for ( size_t j = 0; j < U.np; j++ ) m->buf[j] += g.p[j];
        U.batches++;
        if ( opt->progress ) opt->progress( (int) i, (int) n, "%s", "mine" );
    }
out: gb_free( &g ); gb_free( &up ); free( before ); free( after ); free( rg ); free( mag );
}
static void bare_run_epoch( optimizer_t *opt, const unsigned n, const float *X, const float *Y ) { mine_run_epoch( opt, n, X, Y ); }
CALLBACK_DECLARE( watch );
static struct { int n, order[2000]; const void *opt[2000]; const float *res[2000]; bool valid[2000]; } C;
static int wfreed;
struct _watch_t { callback_t cb; int id; double memory[5]; };
static void watch_free( callback_t *cb ) { wfreed += 1 + ((watch_t*) cb)->id * 100; free( cb ); }
CALLBACK_DEFINE( watch, newcb->id = *(int*) config; if ( newcb->id % 2 ) newcb->cb.free = watch_free; for ( int i = 0; i < 5; i++ ) newcb->memory[i] = i; )
static void watch_callback_run( callback_t *cb, optimizer_t *opt, const float *result, bool valid )
{
    watch_t *w = (watch_t*) cb; if ( C.n < 2000 ) { C.order[C.n] = w->id; C.opt[C.n] = opt; C.res[C.n] = result; C.valid[C.n] = valid; C.n++; }
}
static void fill_xy( int n, int ni, int no, int act, float *X, float *Y )
{
    for ( size_t i = 0; i < (size_t) n * ni; i++ ) X[i] = (float) rndn();
    for ( int i = 0; i < n; i++ ) for ( int j = 0; j < no; j++ ) Y[(size_t) i * no + j] = act == A_SOFTMAX || act == A_SIGMOID ? (float) rndu() : (float) rndn();
}
static void case_ext( long c )
{
    static const int acts[] = { A_SOFTPLUS, A_SOFTSIGN, A_HARD_SIGMOID, A_LINEAR, A_RELU, A_SIGMOID, A_TANH };
    spec_t s; s.L = rndi( 1, 3 ); for ( int l = 0; l <= s.L; l++ ) s.sz[l] = rnd_size( 14 ); for ( int l = 0; l < s.L; l++ ) s.act[l] = acts[rndi( 0, 6 )]; spec_desc( &s );
    int loss = rndi( 0, 2 ); bool own_loss = chance( 0.4 );
    memset( &U, 0, sizeof U );
    neuralnet_t *nn = spec_create( &s ); if ( !nn ) { viol( "create", "cannot create" ); return; }
    fill_params( nn ); neuralnet_set_loss( nn, loss_names[loss] );
    if ( own_loss ) nn->loss = user_loss;
    U.scale = (float)( 0.1 + rndu() ); U.nn = nn; U.np = n_par( nn ); U.ni = s.sz[0]; U.no = s.sz[s.L]; U.n = chance( 0.1 ) ? rndi( 1, 3 ) : rndi( 1, 60 );
    U.shuffle = chance( 0.5 ); U.bs = chance( 0.2 ) ? rndi( 1, 100 ) : rndi( 1, 12 ); U.nv = chance( 0.5 ) ? rndi( 1, 40 ) : 0; if ( chance( 0.15 )) U.skip = rndi( 0, U.n );
    int nm = chance( 0.1 ) ? rndi( 6, 30 ) : rndi( 1, 5 ), kind[31]; metric_func mf[31]; bool defmetric = chance( 0.2 );
    for ( int k = 0; k < nm; k++ ) { kind[k] = rndi( 0, 9 ); if ( kind[k] > 6 ) mf[k] = ums[kind[k] - 7]; else if ( !( mf[k] = get_metric_func( metric_names[kind[k]] ))) { viol( "metric", "no metric %s", metric_names[kind[k]] ); return; } } mf[nm] = NULL;
    bool progress = chance( 0.5 ); float lr = 0.001f * (float) rndu(); int power = rndi( 1, 2 );
    optimizer_properties_t op = OPTIMIZER_PROPERTIES( .batchsize = U.bs, .shuffle = U.shuffle, .metrics = defmetric ? NULL : mf, .progress = progress ? user_progress : NULL );
    cur( "own optimizer on %s, %s loss, %d samples, %d validation, batches of %d%s, %d metrics", s.desc, own_loss ? "own" : loss_names[loss], U.n, U.nv, U.bs, U.shuffle ? " shuffled" : "", nm );
    bool bare = chance( 0.4 ); memset( &own_way, 0, sizeof own_way ); own_way.shuffle = -1;
    if ( bare ) {
        if ( chance( 0.4 )) { own_way.bs = U.bs; op.batchsize = rndi( 1, 100 ); }
        if ( chance( 0.4 )) { own_way.shuffle = U.shuffle; op.shuffle = chance( 0.5 ); }
        if ( chance( 0.4 )) { own_way.progress = true; own_way.pf = op.progress; op.progress = chance( 0.5 ) ? progress_ascii : NULL; }
        if ( !defmetric && chance( 0.4 )) { own_way.metrics = true; own_way.mf = mf; static metric_func none[1]; op.metrics = chance( 0.5 ) ? none : NULL; if ( own_loss ) op.metrics = none; }
    }
    mine_t *m = bare ? (mine_t*) bare_new( nn, op, MINE_PROPERTIES( .lr = lr, .power = power )) : mine_new( nn, op, MINE_PROPERTIES( .lr = lr, .power = power )); optimizer_t *o = OPTIMIZER( m ); U.opt = o;
    if ( !m ) { viol( "create", "no optimizer" ); return; }
    if ( m->lr != lr || m->power != power ) viol( "optimizer", "the optimizer's own properties did not arrive" );
    if ( o->nn != nn || o->shuffle != U.shuffle || o->batchsize != U.bs || o->progress != ( progress ? user_progress : NULL )) viol( "optimizer", "the properties did not arrive" );
    if ( defmetric && own_loss ) { nm = 0; mf[0] = NULL; if ( !o->metrics || o->metrics[0] ) { viol( "metric", "an own loss has a default metric" ); return; } }
    else if ( defmetric ) { nm = 1; kind[0] = loss; mf[0] = get_metric_func( loss_names[loss] ); mf[1] = NULL; if ( !o->metrics || o->metrics[0] != mf[0] || o->metrics[1] ) { viol( "metric", "the metric of the loss is not the default" ); return; } }
    if ( optimizer_get_n_metrics( o ) != nm ) viol( "metric", "%d metrics instead of %d", optimizer_get_n_metrics( o ), nm );
    gbuf X = gb_new( (size_t) U.n * U.ni, rndi( -1, 15 )), Y = gb_new( (size_t) U.n * U.no, rndi( -1, 15 )), VX = gb_new( (size_t) ( U.nv + 1 ) * U.ni, rndi( -1, 15 )), VY = gb_new( (size_t) ( U.nv + 1 ) * U.no, rndi( -1, 15 ));
    fill_xy( U.n, U.ni, U.no, s.act[s.L-1], X.p, Y.p ); fill_xy( U.nv, U.ni, U.no, s.act[s.L-1], VX.p, VY.p );
    gb_ro( &X, true ); gb_ro( &Y, true ); gb_ro( &VX, true ); gb_ro( &VY, true );
    U.X = X.p; U.Y = Y.p; U.VX = VX.p; U.VY = VY.p;
    for ( int k = 0; k < 3; k++ ) U.seen[k] = calloc( U.n + U.nv + 1, 1 );
    int ncb = rndi( 0, 4 ), ids[4]; watch_t *cb[4]; for ( int i = 0; i < ncb; i++ ) { ids[i] = rndi( 1, 9 ); cb[i] = watch_new( ids + i ); }
    omp_set_num_threads( rndi( 1, 6 ));
    int epochs = rndi( 1, 4 ); C.n = 0; wfreed = 0;
    for ( int e = 0; e < epochs && !h_nviol; e++ ) {
        memset( U.mcalls, 0, sizeof U.mcalls ); for ( int k = 0; k < 3; k++ ) memset( U.seen[k], 0, U.n + U.nv + 1 ); U.batches = U.progress = 0; U.lcalls = 0; 
        if ( e && chance( 0.3 )) o->batchsize = U.bs = rndi( 1, 30 );        /* batches of another size from now on */
        gbuf res = gb_new( nm * ( U.nv ? 2 : 1 ), rndi( -1, 15 ));
        optimizer_run_epoch( o, U.n, X.p, Y.p, U.nv, U.nv ? VX.p : NULL, U.nv ? VY.p : NULL, res.p );
        h_evals++;
        if ( h_nviol ) { gb_free( &res ); break; }
        float *pp = malloc( U.np * 4 ); par_copy( nn, pp ); bool sane = true; for ( size_t k = 0; k < U.np; k++ ) if ( !( fabs( pp[k] ) < 1e4 )) sane = false; free( pp );
        if ( !sane ) { stat_add( "diverged", 1 ); gb_free( &res ); break; }
        if ( U.epochs != e + 1 ) viol( "optimizer", "run_epoch was called %d times in %d epochs", U.epochs, e + 1 );
        int n0 = U.skip && U.skip < U.n ? U.n - U.skip : U.n;
        if ( progress && U.progress != U.batches ) viol( "optimizer", "progress was called by somebody else" );
        if ( U.batches != ( n0 + U.bs - 1 ) / U.bs ) viol( "optimizer", "%d batches", U.batches );
        if ( U.foreign || U.wrongn ) viol( "metric", "a metric was called %s", U.foreign ? "for something that is not a row of the set" : "with a wrong number of outputs" );
        if ( own_loss && ( U.lforeign || !U.lcalls )) viol( "loss", "the loss was called %s", U.lcalls ? "for something that is not a row of the training set" : "never" );
        if ( !gb_intact( &res )) viol( "overwrite", "memory beside the results was written" );
        /* what the metrics are, on the network as it is now */
        int want[3] = { 0, 0, 0 }; for ( int k = 0; k < nm; k++ ) if ( kind[k] > 6 ) want[kind[k] - 7]++;
        for ( int k = 0; k < 3; k++ ) for ( int i = 0; i < U.n + U.nv; i++ ) if ( U.seen[k][i] != want[k] ) { viol( "metric", "a metric was called %d times for row %d of %d+%d instead of %d", U.seen[k][i], i, U.n, U.nv, want[k] ); k = 3; break; }
        float *p = malloc( U.no * 4 );
        for ( int set = 0; set < ( U.nv ? 2 : 1 ) && !h_nviol; set++ ) {
            int n = set ? U.nv : U.n; const float *x = set ? VX.p : X.p, *y = set ? VY.p : Y.p;
            for ( int k = 0; k < nm; k++ ) {
                if ( kind[k] > 1 && kind[k] < 5 ) continue;        /* (these have poles: a matter for C06) */
                double sum = 0, mag = 0; for ( int i = 0; i < n; i++ ) { neuralnet_predict( nn, x + (size_t) i * U.ni, p ); float v = mf[k]( U.no, p, y + (size_t) i * U.no ); sum += v; mag += fabs( v ); }
                double slack = ( n + 8 ) * U24 * mag / n;
                /* (a threshold may be crossed by rounding: BLAS may predict other bits in a batch) */
                if ( kind[k] == 5 || kind[k] == 6 || kind[k] == 9 ) slack += kind[k] == 9 ? 1e-6 + 1.0 / n : 1e-6 + 1.0 / n; else slack += 2e-5 * mag / n + 1e-4;
                if ( isfinite( sum ) && !( fabs( res.p[set * nm + k] - sum / n ) <= slack )) { viol( "metric", "result %d of the %s set is %.9g instead of %.9g", k, set ? "validation" : "training", res.p[set * nm + k], sum / n ); break; }
            }
        }
        free( p );
        /* the callbacks, in the order they are run */
        int c0 = C.n; for ( int i = 0; i < ncb; i++ ) { int j = rndi( 0, ncb - 1 ); callback_run( (callback_t*) cb[j], o, res.p, U.nv > 0 );
            if ( C.n != c0 + i + 1 || C.order[C.n-1] != ids[j] || C.opt[C.n-1] != o || C.res[C.n-1] != res.p || C.valid[C.n-1] != ( U.nv > 0 )) { viol( "callback", "a callback was not called with what callback_run was given" ); break; } 
            for ( int k = 0; k < 5; k++ ) if ( cb[j]->memory[k] != k ) { viol( "callback", "the state of a callback changed" ); break; }
            stat_add( "callbacks_run", 1 ); }
        if ( !canary_ok( m )) viol( "overwrite", "the optimizer's own state was overwritten" );
        gb_free( &res );
    }
    cover( h_hash( (int[]){ U.n, U.bs, U.shuffle, U.nv, nm, own_loss, progress, U.skip, epochs, ncb }, 40, spec_hash( &s )));
    if ( c % 211 == 0 ) sample( "%.400s", h_cur );
    int expect = 0; for ( int i = 0; i < ncb; i++ ) { if ( ids[i] % 2 ) expect += 1 + ids[i] * 100; callback_free( (callback_t*) cb[i] ); }
    if ( wfreed != expect ) viol( "callback", "the callbacks' own free functions were not called once each" );
    optimizer_free( o ); if ( U.freed != !bare ) viol( "optimizer", "the optimizer's own free function was called %d times", U.freed );
    for ( int k = 0; k < 3; k++ ) free( U.seen[k] );
    neuralnet_free( nn ); gb_free( &X ); gb_free( &Y ); gb_free( &VX ); gb_free( &VY );
}

/* ------------------------------------------------------------------ the pipeline */
static char dir[600];
static char *path( const char *f ) { static char b[8][800]; static int k; k = ( k + 1 ) % 8; snprintf( b[k], 800, "%s/%s", dir, f ); return b[k]; }
static optimizer_t *opt_of( int kind, neuralnet_t *nn, optimizer_properties_t op, float lr )
{
    switch ( kind ) { case 0: case 1: return OPTIMIZER( SGD_new( nn, op, SGD_PROPERTIES( .learning_rate = lr, .momentum = kind ? 0.8f : 0 )));
        case 2: return OPTIMIZER( RMSprop_new( nn, op, RMSPROP_PROPERTIES( .learning_rate = lr * 0.1f ))); case 3: return OPTIMIZER( adagrad_new( nn, op, ADAGRAD_PROPERTIES( .learning_rate = lr )));
        default: return OPTIMIZER( adam_new( nn, op, ADAM_PROPERTIES( .learning_rate = lr * 0.1f ))); }
}
static npy_array_t *store( const char *f, float *d, int n, int k, bool map )
{
    npy_array_save( path( f ), NPY_ARRAY_BUILDER( d, SHAPE( n, k ), NPY_DTYPE_FLOAT32 ));
    npy_array_t *a = map ? npy_array_mmap( path( f )) : npy_array_load( path( f ));
    if ( !a || a->ndim != 2 || a->shape[0] != (size_t) n || a->shape[1] != (size_t) k || a->typechar != 'f' || a->elem_size != 4 || memcmp( a->data, d, (size_t) n * k * 4 )) { viol( "data", "the array %s came back different", f ); return NULL; }
    return a;
}
static bool same_par( const neuralnet_t *a, const neuralnet_t *b )
{
    if ( !a || !b || a->n_layers != b->n_layers ) return false;
    for ( int l = 0; l < a->n_layers; l++ ) {
        if ( a->layer[l].n_input != b->layer[l].n_input || a->layer[l].n_output != b->layer[l].n_output || a->layer[l].activation_func != b->layer[l].activation_func ) return false;
        if ( memcmp( a->layer[l].bias, b->layer[l].bias, a->layer[l].n_output * 4 ) || memcmp( a->layer[l].weight, b->layer[l].weight, (size_t) a->layer[l].n_output * a->layer[l].n_input * 4 )) return false;
    }
    return true;
}
static void case_pipeline( long c )
{
    static const int acts[] = { A_SOFTPLUS, A_SOFTSIGN, A_HARD_SIGMOID, A_RELU, A_SIGMOID, A_TANH };
    snprintf( dir, sizeof dir, "%s/p", h_dir ); mkdir( dir, 0700 );
    static const char *files[] = { "x.npy", "y.npy", "vx.npy", "vy.npy", "best.npz", "log.txt", "half.npz", "last.npz" };
    for ( int i = 0; i < 8; i++ ) unlink( path( files[i] ));
    spec_t s; s.L = rndi( 1, 4 ); for ( int l = 0; l <= s.L; l++ ) s.sz[l] = rnd_size( 20 ); for ( int l = 0; l < s.L; l++ ) s.act[l] = acts[rndi( 0, 5 )];
    int loss = rndi( 0, 4 ), greater = chance( 0.3 ); if ( loss == L_CCE ) { s.act[s.L-1] = A_SOFTMAX; if ( s.sz[s.L] < 2 ) s.sz[s.L] = 3; } else if ( loss == L_BCE ) s.act[s.L-1] = A_SIGMOID; else if ( chance( 0.5 )) s.act[s.L-1] = A_LINEAR;
    spec_desc( &s ); if ( chance( 0.03 )) spec_deep( &s );
    int ni = s.sz[0], no = s.sz[s.L], n = rndi( 1, 80 ), nv = chance( 0.75 ) ? rndi( 1, 40 ) : 0, kind = rndi( 0, 4 ), bs = rndi( 1, 20 ), epochs = rndi( 1, 25 ), patience = rndi( 0, 6 );
    bool shuffle = chance( 0.4 ), map = chance( 0.5 ); float lr = (float) pow( 10, -3 + 2.5 * rndu());
    int threads = shuffle ? rndi( 1, 4 ) : chance( 0.6 ) ? 1 : rndi( 2, 4 ); omp_set_num_threads( threads );
    float *d[4]; for ( int i = 0; i < 4; i++ ) d[i] = malloc( ( (size_t) ( i < 2 ? n : nv ) * ( i & 1 ? no : ni ) + 1 ) * 4 );
    for ( int v = 0; v < 2; v++ ) {      /* something that can be learned */
        int m = v ? nv : n; for ( int i = 0; i < m; i++ ) for ( int j = 0; j < ni; j++ ) d[2*v][(size_t) i * ni + j] = (float) rndn();
        for ( int i = 0; i < m; i++ ) { float *x = d[2*v] + (size_t) i * ni, *y = d[2*v+1] + (size_t) i * no; int best = 0;
            for ( int j = 0; j < no; j++ ) { y[j] = sinf( x[j % ni] * ( j + 1 )) + 0.2f * (float) rndn() + ( loss == L_MAPE ? 3 : 0 ); if ( y[j] > y[best] ) best = j; }
            if ( loss == L_CCE ) for ( int j = 0; j < no; j++ ) y[j] = j == best; else if ( loss == L_BCE ) for ( int j = 0; j < no; j++ ) y[j] = y[j] > 0; }
    }
    cur( "%s with %s, loss %s, %d+%d samples%s, batches of %d%s, %d epochs, patience %d, %d threads", s.desc, (char*[]){ "SGD", "momentum", "RMSprop", "adagrad", "adam" }[kind], loss_names[loss], n, nv, map ? " (mapped)" : "", bs, shuffle ? " shuffled" : "", epochs, patience, threads );
    npy_array_t *a[4] = { 0 }; bool have = true;
    static const char *dn[] = { "x.npy", "y.npy", "vx.npy", "vy.npy" };
    for ( int i = 0; i < ( nv ? 4 : 2 ) && have; i++ ) have = ( a[i] = store( dn[i], d[i], i < 2 ? n : nv, i & 1 ? no : ni, map )) != NULL;
    if ( !have ) return;
    if ( map && chance( 0.5 )) for ( int i = 0; i < 4; i++ ) unlink( path( dn[i] ));      /* the map stays valid */
    neuralnet_t *nn = spec_create( &s ); srand( rnd()); neuralnet_initialize( nn, NULL ); neuralnet_set_loss( nn, loss_names[loss] );
    int nm = rndi( 1, 4 ), ms[5]; metric_func mf[6];
    for ( int k = 0; k < nm; k++ ) { ms[k] = k == 0 && !greater ? loss : rndi( 0, 6 ); if ( greater && k == 0 ) ms[k] = loss == L_CCE ? 6 : 5; mf[k] = get_metric_func( metric_names[ms[k]] ); } mf[nm] = NULL;
    optimizer_t *o = opt_of( kind, nn, OPTIMIZER_PROPERTIES( .batchsize = bs, .shuffle = shuffle, .metrics = mf, .progress = NULL ), lr );
    callback_t *es = CALLBACK( earlystopping_new( EARLYSTOPPING_SETTINGS( .patience = patience, .greater_is_better = greater ))),
        *cp = CALLBACK( modelcheckpoint_new( MODELCHECKPOINT_SETTINGS( .filename = path( "best.npz" ), .greater_is_better = greater ))),
        *lg = CALLBACK( logger_new( LOGGER_SETTINGS( .filename = path( "log.txt" ), .no_stdout = true )));
    float *hist = malloc( epochs * nm * 2 * 4 ), best = 0; bool hv = false; int fails = 0, e, ns = nm * ( nv ? 2 : 1 ), bi = nv ? nm : 0, ran = 0; 
    float *bestpar = malloc( n_par( nn ) * 4 ); bool bad = false; int half = chance( 0.7 ) && kind == 0 && !shuffle && threads == 1 ? rndi( 1, epochs ) : 0; bool halved = false;
    for ( e = 0; e < epochs; e++ ) {
        float *r = hist + (size_t) e * nm * 2;
        optimizer_run_epoch( o, n, (float*) a[0]->data, (float*) a[1]->data, nv, nv ? (float*) a[2]->data : NULL, nv ? (float*) a[3]->data : NULL, r ); ran++; h_evals++;
        int first = rndi( 0, 2 ); callback_t *all[3] = { es, cp, lg }; for ( int k = 0; k < 3; k++ ) callback_run( all[( first + k ) % 3], o, r, nv > 0 );
        for ( int k = 0; k < ns; k++ ) if ( !isfinite( r[k] )) bad = true;
        if ( bad ) break;
        if ( !hv || ( greater ? r[bi] > best : r[bi] < best )) { hv = true; best = r[bi]; fails = 0; par_copy( nn, bestpar ); } else fails++;
        if ( e + 1 == half ) { neuralnet_save( nn, "%s/%s", dir, "half.npz" ); halved = true; }
        bool stop = earlystopping_do_stop( (earlystopping_t*) es );
        if ( stop != ( fails > patience )) { viol( "stop", "in epoch %d, %d epochs after the best, training was told %s (patience %d)", e + 1, fails, stop ? "to stop" : "to go on", patience ); break; }
        if ( stop ) break;
    }
    if ( bad ) stat_add( "diverged", 1 );
    if ( !bad ) {
        /* the checkpoint: the network of the best epoch, which still gets that score */
        neuralnet_t *b = neuralnet_load( path( "best.npz" ));
        if ( !b ) viol( "checkpoint", "the checkpoint cannot be loaded" );
        else {
            float *q = malloc( n_par( nn ) * 4 ); if ( n_par( b ) != n_par( nn )) viol( "checkpoint", "the checkpoint is another network" ); else { par_copy( b, q ); if ( memcmp( q, bestpar, n_par( nn ) * 4 )) viol( "checkpoint", "the checkpoint does not hold the parameters of the best epoch" ); } free( q );
            float rr[5]; int vi = nv ? 2 : 0; evaluate( b, nv ? nv : n, (float*) a[vi]->data, (float*) a[vi+1]->data, mf, rr );
            if ( fabsf( rr[0] - best ) > ( threads == 1 ? 0 : 1e-5f * fabsf( best ) + 1e-6f ) && !( H_BLAS )) viol( "checkpoint", "the loaded checkpoint scores %.9g, reported was %.9g", rr[0], best );
            if ( H_BLAS && fabsf( rr[0] - best ) > 1e-3f * fabsf( best ) + 1e-3f && ms[0] < 5 ) viol( "checkpoint", "the loaded checkpoint scores %.9g, reported was %.9g", rr[0], best );
            neuralnet_free( b ); stat_add( "checkpoints_reloaded", 1 );
        }
        /* the log: every epoch, in order, with its results */
        FILE *f = fopen( path( "log.txt" ), "r" ); static char line[8000]; int lines = 0, first = -1;
        while ( f && fgets( line, sizeof line, f )) {
            char *p = strstr( line, "Epoch" ); int ep = -1, k = 0; if ( !p || sscanf( p, "Epoch %d", &ep ) != 1 ) { if ( p && sscanf( p, "Epoch: %d", &ep ) == 1 ) ; else { viol( "log", "line %d of the log has no epoch: %.100s", lines + 1, line ); break; } }
            if ( first < 0 ) first = ep; else if ( ep != first + lines ) { viol( "log", "line %d of the log is epoch %d, the first %d", lines + 1, ep, first ); break; }
            for ( p = strchr( p, ':' ); p && k < ns; p = strchr( p + 1, ':' )) { float v; if ( p[1] != ' ' || sscanf( p + 1, "%f", &v ) != 1 ) continue; float w = hist[(size_t) lines * nm * 2 + k]; if ( fabsf( v - w ) > 2e-5f * fabsf( w ) + 1e-37f ) { viol( "log", "line %d of the log says %g, the result was %g", lines + 1, v, w ); break; } k++; }
            if ( k < ns && !h_nviol ) { viol( "log", "line %d of the log has %d results instead of %d: %.200s", lines + 1, k, ns, line ); break; }
            lines++;
        }
        if ( f ) fclose( f );
        if ( lines != ran && !h_nviol ) viol( "log", "%d lines in the log after %d epochs", lines, ran );
        /* the final network through a file */
        neuralnet_save( nn, path( "last.npz" )); neuralnet_t *z = neuralnet_load( path( "last.npz" ));
        if ( !z || !same_par( nn, z )) viol( "reload", "the saved network came back different" );
        else {
            float *y1 = malloc( (size_t) n * no * 4 + 4 ), *y2 = malloc( (size_t) n * no * 4 + 4 ); neuralnet_predict_batch( nn, n, (float*) a[0]->data, y1 ); neuralnet_predict_batch( z, n, (float*) a[0]->data, y2 );
            if ( !H_BLAS && memcmp( y1, y2, (size_t) n * no * 4 )) viol( "reload", "the reloaded network predicts differently" ); free( y1 ); free( y2 );
        }
        if ( z ) neuralnet_free( z );
        /* go on from the network saved after `half` epochs: as if never interrupted */
        if ( halved && !H_BLAS ) {
            neuralnet_t *h = neuralnet_load( path( "half.npz" ));
            if ( !h ) viol( "resume", "the network saved after epoch %d cannot be loaded", half );
            else {
                neuralnet_set_loss( h, loss_names[loss] );
                optimizer_t *o2 = opt_of( kind, h, OPTIMIZER_PROPERTIES( .batchsize = bs, .shuffle = shuffle, .metrics = mf, .progress = NULL ), lr ); float rr[10];
                for ( int k = half; k < ran; k++ ) {
                    optimizer_run_epoch( o2, n, (float*) a[0]->data, (float*) a[1]->data, nv, nv ? (float*) a[2]->data : NULL, nv ? (float*) a[3]->data : NULL, rr );
                    if ( memcmp( rr, hist + (size_t) k * nm * 2, ns * 4 )) { viol( "resume", "epoch %d after loading the network of epoch %d reported %.9g instead of %.9g", k + 1, half, rr[0], hist[(size_t) k * nm * 2] ); break; }
                }
                if ( !same_par( h, nn )) viol( "resume", "training resumed after epoch %d ended elsewhere", half );
                optimizer_free( o2 ); neuralnet_free( h ); stat_add( "resumed", 1 );
            }
        }
        stat_add( fails > patience ? "stopped_early" : "ran_to_the_end", 1 );
    }
    for ( int i = 0; i < ( nv ? 4 : 2 ); i++ ) { if ( memcmp( a[i]->data, d[i], (size_t) ( i < 2 ? n : nv ) * ( i & 1 ? no : ni ) * 4 )) viol( "data", "training changed the data" ); npy_array_free( a[i] ); }
    cover( h_hash( (int[]){ n, nv, kind, loss, bs, shuffle, epochs, patience, ran, greater }, 40, spec_hash( &s )));
    if ( c % 97 == 0 ) sample( "%.400s -> %d epochs, best %g", h_cur, ran, best );
    callback_free( es ); callback_free( cp ); callback_free( lg ); optimizer_free( o ); neuralnet_free( nn ); free( hist ); free( bestpar ); for ( int i = 0; i < 4; i++ ) free( d[i] );
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_quiet(); heap_poison();
    for ( long c = h_from; c < h_to; c++ ) { h_begin( c ); if ( !strcmp( h_mode, "ext" )) case_ext( c ); else case_pipeline( c ); }
    h_finish(); return 0;
}
