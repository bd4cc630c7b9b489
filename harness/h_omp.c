/* C15: threads. Mode "team": the library's parallel regions with teams of all sizes against one thread; mode "app": several threads of the
 * application, sharing a network or training networks of their own, against each of them alone. With TSan the runtime is gompshim.c. */
#include "h.h"
#include "ref.h"
#include "optimizer_implementations.h"
#include "evaluate.h"
#include "neuralnet_predict_batch.h"
#include "loss.h"
#include "gompshim.h"
#include <pthread.h>
#include <sched.h>
#include <omp.h>
static const char *metric_names[7] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy", "binary_accuracy", "categorical_accuracy" };
#ifdef USE_CBLAS
enum { METRICS = 2 };      /* the last bits of a BLAS depend on where its operands lie; the others magnify them without bound (logarithms, thresholds) */
#else
enum { METRICS = 7 };
#endif
static const char *opt_names[4] = { "SGD", "RMSprop", "adagrad", "adam" };
static void *am( size_t n ) { void *p = NULL; if ( posix_memalign( &p, 128, n + 128 )) abort(); memset( p, 0, n + 128 ); return p; }
static void no_progress( int x, int n, const char *f, ... ) { (void) x; (void) n; (void) f; }
typedef struct { int kind, bs; float lr, mom, decay, wd, rho, b1, b2; bool nesterov, shuffle; metric_func mf[8]; int nm; } oconf;
static void oconf_random( oconf *o, int bsmax, bool exact )
{
    memset( o, 0, sizeof *o ); o->kind = rndi( 0, 3 ); o->bs = exact ? 1 << rndi( 0, 6 ) : rndi( 1, bsmax );
    o->lr = exact ? 0.015625f : (float)( 0.001 + 0.01 * rndu()); o->mom = chance( 0.5 ) ? 0.5f : 0; o->decay = chance( 0.4 ) ? 0.01f : 0; o->wd = chance( 0.4 ) ? 0.001f : 0; o->rho = 0.875f; o->b1 = 0.75f; o->b2 = 0.96875f; o->nesterov = chance( 0.4 ); o->shuffle = chance( 0.3 );
    o->nm = chance( 0.3 ) ? 7 : rndi( 1, 4 ); for ( int i = 0; i < o->nm; i++ ) o->mf[i] = get_metric_func( metric_names[rndi( 0, METRICS - 1 )] );
}
static optimizer_t *oconf_new( oconf *o, neuralnet_t *nn )
{
    optimizer_properties_t op = OPTIMIZER_PROPERTIES( .batchsize = o->bs, .shuffle = o->shuffle, .metrics = o->mf, .progress = no_progress );
    switch ( o->kind ) {
        case 0: return OPTIMIZER( SGD_new( nn, op, SGD_PROPERTIES( .learning_rate = o->lr, .decay = o->decay, .momentum = o->mom, .nesterov = o->nesterov )));
        case 1: return OPTIMIZER( RMSprop_new( nn, op, RMSPROP_PROPERTIES( .learning_rate = o->lr, .rho = o->rho, .decay = o->decay, .momentum = o->mom, .nesterov = o->nesterov )));
        case 2: return OPTIMIZER( adagrad_new( nn, op, ADAGRAD_PROPERTIES( .learning_rate = o->lr, .decay = o->decay )));
        default: return OPTIMIZER( adam_new( nn, op, ADAM_PROPERTIES( .learning_rate = o->lr, .beta_1 = o->b1, .beta_2 = o->b2, .weight_decay = o->wd )));
    }
}
/* exact: small dyadic numbers, so that no sum is ever rounded and its order cannot matter */
typedef struct { spec_t s; int loss, n, ni, no; bool exact; float *X, *Y; } task;
static double dy( void ) { return rndi( -4, 4 ) * 0.5; }
static void task_random( task *T, bool exact, int nmax )
{
    T->exact = exact; spec_t *s = &T->s;
    static const int smooth[] = { A_SOFTPLUS, A_SOFTSIGN, A_LINEAR, A_SIGMOID, A_TANH };
    if ( exact ) { s->L = rndi( 1, 3 ); for ( int l = 0; l <= s->L; l++ ) s->sz[l] = rndi( 1, 9 ); s->sz[s->L] = 1 << rndi( 0, 3 ); for ( int l = 0; l < s->L; l++ ) s->act[l] = chance( 0.5 ) ? A_LINEAR : A_RELU; T->loss = chance( 0.7 ) ? L_MSE : L_MAE; }
    else { s->L = chance( 0.1 ) ? rndi( 4, 9 ) : rndi( 1, 3 ); int wide = chance( 0.1 ) ? 120 : 24; for ( int l = 0; l <= s->L; l++ ) s->sz[l] = rndi( 1, wide ); for ( int l = 0; l < s->L; l++ ) s->act[l] = smooth[rndi( 0, 4 )]; T->loss = chance( 0.6 ) ? L_MSE : chance( 0.5 ) ? L_CCE : L_BCE; if ( T->loss == L_CCE ) s->act[s->L-1] = A_SOFTMAX; if ( T->loss == L_BCE ) s->act[s->L-1] = A_SIGMOID; }
    spec_desc( s ); T->ni = s->sz[0]; T->no = s->sz[s->L]; T->n = chance( 0.15 ) ? 1 : exact ? 1 << rndi( 0, 6 ) : rndi( 1, nmax );
    T->X = am( 4ul * T->n * T->ni ); T->Y = am( 4ul * T->n * T->no );
    for ( int i = 0; i < T->n; i++ ) { for ( int j = 0; j < T->ni; j++ ) T->X[i*T->ni+j] = exact ? dy() : rndn(); if ( exact ) for ( int j = 0; j < T->no; j++ ) T->Y[i*T->no+j] = dy(); else fill_target( T->Y + i * T->no, T->no, T->loss ); }
}
static void task_free( task *T ) { free( T->X ); free( T->Y ); }
static neuralnet_t *task_net( task *T, uint64_t seed )
{
    neuralnet_t *nn = spec_create( &T->s ); uint64_t a = h_s[0], b = h_s[1]; rnd_seed( seed );
    if ( !T->exact ) fill_params( nn ); else for ( int l = 0; l < nn->n_layers; l++ ) { for ( int i = 0; i < nn->layer[l].n_input * nn->layer[l].n_output; i++ ) nn->layer[l].weight[i] = rndi( -2, 2 ) * 0.5; for ( int i = 0; i < nn->layer[l].n_output; i++ ) nn->layer[l].bias[i] = dy(); }
    h_s[0] = a; h_s[1] = b; neuralnet_set_loss( nn, loss_names[T->loss] ); return nn;
}
/* trained alike? */
static bool net_close( const char *how, const oconf *o, const task *T, const neuralnet_t *a, const neuralnet_t *b, int steps, bool precise )
{
    int off = 0, all = 0; double worst = 0; char at[100] = "";
    for ( int l = 0; l < a->n_layers; l++ ) for ( int v = 0; v < 2; v++ ) {
        const float *x = v ? a->layer[l].bias : a->layer[l].weight, *y = v ? b->layer[l].bias : b->layer[l].weight; int k = v ? a->layer[l].n_output : a->layer[l].n_output * a->layer[l].n_input;
        for ( int i = 0; i < k; i++, all++ ) {
            double d = fabs( (double) x[i] - y[i] ), tol = precise ? 2e-6 * ( 1 + fabs( x[i] )) : o->kind == 0 ? 1e-4 * ( 1 + fabs( x[i] )) : 0.02 * o->lr * steps + 1e-5 * ( 1 + fabs( x[i] ));
            if ( isfinite( x[i] ) != isfinite( y[i] ) || d > tol ) { if ( !off++ || d > worst ) { worst = d; snprintf( at, sizeof at, "layer %d %s %d: %.9g instead of %.9g", l, v ? "bias" : "weight", i, y[i], x[i] ); } }
        }
    }
    int allow = precise || o->kind == 0 ? 0 : all / 10 < 3 ? 3 : all / 10;
    if ( off > allow ) { viol( "training", "%s: %d of %d parameters differ after %d steps of %s on %s, n %d batch %d (%s)", how, off, all, steps, opt_names[o->kind], T->s.desc, T->n, o->bs, at ); return false; }
    return true;
}
static bool val_close( const char *how, const char *what, const task *T, const float *x, const float *y, int k, double rel )
{
    for ( int i = 0; i < k; i++ ) { if ( isnan( x[i] ) && isnan( y[i] )) continue; if ( !( fabs( (double) x[i] - y[i] ) <= rel * ( 1 + fabs( x[i] ))) && x[i] != y[i] ) { viol( what, "%s: value %d of %d is %.9g instead of %.9g for %s, n %d", how, i, k, y[i], x[i], T->s.desc, T->n ); return false; } }
    return true;
}
static int rnd_threads( void ) { int r = rndi( 0, 19 ); return r == 0 ? 33 : r == 1 ? 16 : r == 2 ? 64 : r < 6 ? 2 : rndi( 2, 9 ); }
static void sched_stats( uint64_t h )
{
    if ( !shim_trace ) { cover( h ); return; }
    uint64_t t = shim_trace(); cover( h ^ t ); 
}
static void team( long c )
{
    task T; bool exact = chance( 0.5 ); task_random( &T, exact, chance( 0.03 ) ? H_TSAN ? 600 : 3000 : 70 ); oconf o; oconf_random( &o, 40, exact );
    if ( T.n > 70 && o.bs < T.n / 6 ) o.bs = T.n / 6 + 1;      /* (errors grow with the steps) */
    int nt = rnd_threads(); uint64_t seed = rnd(); char how[200]; snprintf( how, sizeof how, "%d threads", nt );
    if ( shim_config ) shim_config( rnd(), H_TSAN ? rndi( 0, 2 ) : rndi( 1, 2 ));
    neuralnet_t *a = task_net( &T, seed ), *b = task_net( &T, seed );
    float *pa = am( 4ul * T.n * T.no ), *pb = am( 4ul * T.n * T.no ), ma[16], mb[16];
    cur( "%d threads, %s, n %d, %s batch %d%s", nt, T.s.desc, T.n, opt_names[o.kind], o.bs, o.shuffle ? " shuffled" : "" ); 
    omp_set_num_threads( 1 ); neuralnet_predict_batch( a, T.n, T.X, pa ); evaluate( a, T.n, T.X, T.Y, o.mf, ma );
    omp_set_num_threads( nt ); scribble( c % 3 ); neuralnet_predict_batch( b, T.n, T.X, pb ); 
    if ( !val_close( how, "batch", &T, pa, pb, T.n * T.no, 1e-5 )) goto end;
    evaluate( b, T.n, T.X, T.Y, o.mf, mb );
    /* (the relative errors of a percentage are those of the prediction divided by the target) */
    if ( !val_close( how, "evaluate", &T, ma, mb, o.nm, 2e-4 )) goto end;
    h_evals += 2;
    /* training */
    bool onebatch = T.n <= o.bs; int epochs = exact && onebatch ? 1 : rndi( 1, 3 ), steps = epochs * (( T.n + o.bs - 1 ) / o.bs );
    bool compare = exact ? onebatch : !o.shuffle;         /* the order may only be free within the one exact batch */
    bool precise = exact && onebatch; if ( T.s.L > 3 && o.kind ) compare = false;
    if ( exact && !onebatch && o.kind == 0 && !o.shuffle ) compare = true;
    optimizer_t *oa, *ob; 
    omp_set_num_threads( 1 ); oa = oconf_new( &o, a ); for ( int e = 0; e < epochs; e++ ) optimizer_run_epoch( oa, T.n, T.X, T.Y, 0, NULL, NULL, ma ); optimizer_free( oa );
    omp_set_num_threads( nt ); ob = oconf_new( &o, b ); for ( int e = 0; e < epochs; e++ ) { optimizer_run_epoch( ob, T.n, T.X, T.Y, 0, NULL, NULL, mb ); h_evals++; } optimizer_free( ob );
    stat_add( precise ? "epochs_exact" : compare ? "epochs_compared" : "epochs_raced", epochs );
    if ( compare && ( o.kind || !( exact && !onebatch ) || T.loss == L_MSE )) {
        /* a rectifier or an absolute error at its kink may go either way when a rounding moved it there */
        bool kinky = !precise && exact; 
        if ( !kinky && net_close( how, &o, &T, a, b, steps, precise ) && ( precise || o.kind == 0 )) val_close( how, "results", &T, ma, mb, precise || T.loss == L_MSE ? 1 : 0, 5e-3 );
    }
    if ( shim_counts && c % 61 == 0 ) { uint64_t r, m, e; shim_counts( &r, &m, &e ); sample( "%s on %s, n %d, %s batch %d; so far %llu regions with %llu members and %llu events", how, T.s.desc, T.n, opt_names[o.kind], o.bs, (unsigned long long) r, (unsigned long long) m, (unsigned long long) e ); }
    sched_stats( h_hash( &T.n, 4, spec_hash( &T.s ) + nt * 64 + o.kind * 4 ));
end:
    free( pa ); free( pb ); neuralnet_free( a ); neuralnet_free( b ); task_free( &T );
}
/* ---- threads of the application */
enum { OPS = 12 };
typedef struct { bool trainer; int nthr; task *T; neuralnet_t *shared; task own; oconf o; uint64_t seed; int epochs; int op[OPS], arg[OPS]; float *rec; int nrec, cap; neuralnet_t *result; pthread_barrier_t *bar; size_t np; } worker;
static void put( worker *w, const float *v, int n ) { while ( w->nrec + n > w->cap ) w->rec = realloc( w->rec, 4ul * ( w->cap = w->cap * 2 + n )); memcpy( w->rec + w->nrec, v, 4ul * n ); w->nrec += n; }
static void *work( void *v )
{
    worker *w = v; uint64_t r = w->seed; 
    omp_set_num_threads( w->nthr );
    if ( w->bar ) pthread_barrier_wait( w->bar );
    if ( w->trainer ) {
        optimizer_t *o = oconf_new( &w->o, w->result ); float res[16];
        for ( int e = 0; e < w->epochs; e++ ) { if ( w->bar && ( r = h_mix( r )) & 1 ) sched_yield(); optimizer_run_epoch( o, w->own.n, w->own.X, w->own.Y, 0, NULL, NULL, res ); }
        optimizer_free( o ); return NULL;
    }
    task *T = w->T; float *out = am( 4ul * T->n * T->no ), *g = am( 4ul * w->np ), m[16];
    for ( int i = 0; i < OPS; i++ ) {
        if ( w->bar && ( r = h_mix( r )) & 1 ) sched_yield();
        int k = w->arg[i];
        switch ( w->op[i] ) {
            case 0: case 1: neuralnet_predict( w->shared, T->X + (size_t) k * T->ni, out ); put( w, out, T->no ); break;
            case 2: neuralnet_backpropagation( w->shared, T->X + (size_t) k * T->ni, T->Y + (size_t) k * T->no, g ); put( w, g, w->np ); break;
            case 3: neuralnet_predict_batch( w->shared, k + 1, T->X, out ); put( w, out, T->no * ( k + 1 )); break;
            default: evaluate( w->shared, k + 1, T->X, T->Y, w->o.mf, m ); put( w, m, w->o.nm ); break;
        }
    }
    free( out ); free( g ); return NULL;
}
static void app( long c )
{
    enum { MAXW = 8 }; task T; task_random( &T, false, 30 ); neuralnet_t *nn = task_net( &T, rnd()); uint64_t before; float **snap = params_snapshot( nn ); before = spec_hash( &T.s );
    int nw = rndi( 2, H_TSAN ? 5 : MAXW ), ntr = 0; worker w[MAXW], al[MAXW]; memset( w, 0, sizeof w ); pthread_barrier_t bar; pthread_barrier_init( &bar, NULL, nw );
    if ( shim_config ) shim_config( rnd(), rndi( 0, 2 ));
    for ( int i = 0; i < nw; i++ ) {
        worker *x = w + i; x->seed = rnd(); x->nthr = chance( 0.4 ) ? 1 : rndi( 2, 3 ); x->T = &T; x->shared = nn; x->np = neuralnet_total_n_parameters( nn ); x->bar = &bar; oconf_random( &x->o, 20, false );
        x->trainer = chance( 0.4 ); x->epochs = rndi( 1, 3 );
        for ( int k = 0; k < OPS; k++ ) { x->op[k] = rndi( 0, 4 ); x->arg[k] = rndi( 0, T.n - 1 ); }
        if ( x->trainer ) {      /* on data of its own or on those that all read */
            ntr++; bool share = chance( 0.4 ); 
            if ( share ) { x->own = T; } else task_random( &x->own, false, 30 );
            x->result = task_net( &x->own, x->seed );
        }
        al[i] = *x; al[i].bar = NULL; if ( x->trainer ) al[i].result = task_net( &x->own, x->seed );
    }
    cur( "%d threads, %d of them train; %s n %d", nw, ntr, T.s.desc, T.n );
    for ( int i = 0; i < nw; i++ ) { curadd( "; %s x%d", w[i].trainer ? opt_names[w[i].o.kind] : "reader", w[i].nthr ); }
    for ( int i = 0; i < nw; i++ ) work( al + i );      /* each alone */
    pthread_t th[MAXW]; for ( int i = 0; i < nw; i++ ) if ( pthread_create( th + i, NULL, work, w + i )) { perror( "pthread_create" ); exit( 3 ); }
    for ( int i = 0; i < nw; i++ ) pthread_join( th[i], NULL );
    pthread_barrier_destroy( &bar ); 
    if ( !params_same( nn, snap )) viol( "shared", "the network all the threads only used has changed" );
    for ( int i = 0; i < nw; i++ ) {
        char how[100]; snprintf( how, sizeof how, "thread %d of %d", i, nw ); h_evals++;
        if ( w[i].trainer ) { if ( !w[i].o.shuffle ) { net_close( how, &w[i].o, &w[i].own, al[i].result, w[i].result, w[i].epochs * (( w[i].own.n + w[i].o.bs - 1 ) / w[i].o.bs ), false ); stat_add( "trainers_compared", 1 ); } else stat_add( "trainers_raced", 1 ); }
        else { if ( w[i].nrec != al[i].nrec ) abort(); val_close( how, "values", &T, al[i].rec, w[i].rec, w[i].nrec, 2e-4 ); stat_add( "operations", OPS ); }
    }
    sched_stats( before + c ); if ( c % 37 == 0 ) sample( "%d threads, %d of them train; %s n %d", nw, ntr, T.s.desc, T.n );
    for ( int i = 0; i < nw; i++ ) { free( w[i].rec ); free( al[i].rec ); if ( w[i].trainer ) { neuralnet_free( w[i].result ); neuralnet_free( al[i].result ); if ( w[i].own.X != T.X ) task_free( &w[i].own ); } }
    params_free( snap, nn->n_layers ); neuralnet_free( nn ); task_free( &T );
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_quiet();
    for ( long c = h_from; c < h_to; c++ ) { h_begin( c ); if ( !strcmp( h_mode, "team" )) team( c ); else app( c ); }
    if ( shim_counts ) { uint64_t r, m, e; shim_counts( &r, &m, &e ); stat_add( "parallel_regions", r ); stat_add( "team_members", m ); stat_add( "schedule_events", e ); }
    h_finish(); return 0;
}
