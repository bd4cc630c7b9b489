/* C16: random valid sequences of calls over everything the library offers. Each sequence runs several times with the same choices while heap
 * and stack are filled with different garbage: with one thread all that it computes must be the same to the bit; and once all is freed, nothing
 * may be left that grows with each time. All allocations of the process pass through here (natively). */
#include "h.h"
#include "acct.h"
#include "neuralnet.h"
#include "neuralnet_predict_batch.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
#include "evaluate.h"
#include "progress.h"
#include "npy_array.h"
#include "npy_array_list.h"
#include "optimizer_implementations.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "logger.h"
#include "ref.h"
#include <omp.h>
#include <sys/resource.h>
#ifdef USE_CBLAS
#define CBLAS 1
#else
#define CBLAS 0
#endif
static long live; static int fillbyte = 0;
#if !H_ASAN && !MSAN
void *__libc_malloc( size_t ); void *__libc_calloc( size_t, size_t ); void *__libc_realloc( void *, size_t ); void __libc_free( void * ); void *__libc_memalign( size_t, size_t );
static void *took( void *p ) { if ( p ) { __atomic_add_fetch( &live, 1, 0 ); memset( p, fillbyte, malloc_usable_size( p )); } return p; }
void *malloc( size_t n ) { return took( __libc_malloc( n )); }
void *calloc( size_t a, size_t b ) { void *p = __libc_calloc( a, b ); if ( p ) __atomic_add_fetch( &live, 1, 0 ); return p; }
void free( void *p ) { if ( !p ) return; __atomic_sub_fetch( &live, 1, 0 ); memset( p, fillbyte ^ 0x55, malloc_usable_size( p )); __libc_free( p ); }
void *realloc( void *p, size_t n )      /* always moves */
{
    if ( !p ) return malloc( n );
    if ( !n ) { free( p ); return NULL; }
    void *q = malloc( n ); if ( !q ) return NULL; size_t o = malloc_usable_size( p ); memcpy( q, p, o < n ? o : n ); free( p ); return q;
}
int posix_memalign( void **r, size_t al, size_t n ) { void *p = __libc_memalign( al, n ); if ( !p ) return ENOMEM; *r = took( p ); return 0; }
void *aligned_alloc( size_t al, size_t n ) { return took( __libc_memalign( al, n )); }
void *memalign( size_t al, size_t n ) { return took( __libc_memalign( al, n )); }
#elif H_ASAN
static void took_asan( void ) { live = (long) __sanitizer_get_current_allocated_bytes(); }
#endif
time_t time( time_t *t ) { if ( t ) *t = 1700000000; return 1700000000; }
static uint64_t rs; void srand( unsigned s ) { (void) s; rs = 4711; }   /* (libzip takes from random()) */
int rand( void ) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (int)( rs >> 33 ); }
static long held( void )
{
#if H_ASAN
    took_asan();
#endif
    return live;
}
/* ---- what a sequence computes */
static uint64_t H; static char lastdiff[200]; static uint64_t trace[4096]; static const char *tname[4096]; static int nt;
static void see( const char *what, const void *p, size_t n )
{
#if MSAN
    __msan_check_mem_is_initialized( p, n );
#endif
    H = h_hash( p, n, H ); if ( nt < 4096 ) { trace[nt] = H; tname[nt++] = what; }
}
static void see_net( const char *what, const neuralnet_t *nn )
{
    see( what, &nn->n_layers, sizeof nn->n_layers );
    for ( int l = 0; l < nn->n_layers; l++ ) { const layer_t *y = nn->layer + l; see( what, y->weight, 4ul * y->n_input * y->n_output ); see( what, y->bias, 4ul * y->n_output ); }
}
static void see_arr( const char *what, const npy_array_t *a )
{
    see( what, a->shape, sizeof *a->shape * a->ndim ); see( what, &a->ndim, sizeof a->ndim ); see( what, &a->typechar, 1 ); see( what, &a->elem_size, sizeof a->elem_size ); char f = a->fortran_order; see( what, &f, 1 );
    see( what, a->data, npy_array_calculate_datasize( a ));
}
static void see_file( const char *what, const char *fn )
{
    FILE *f = fopen( fn, "rb" ); char b[4096]; size_t n; if ( !f ) { see( what, "none", 4 ); return; }
    while (( n = fread( b, 1, sizeof b, f )) > 0 ) see( what, b, n );
    fclose( f );
}
/* ---- the world */
enum { NN = 3, NO = 4, NC = 4, NA = 4, NLST = 2 };
static struct { neuralnet_t *nn; spec_t s; int loss; bool init, custom; int opts; } net[NN];
static struct { optimizer_t *o; int net, nm; metric_func *mf; bool dead; } opt[NO];
static struct { callback_t *c; int kind; char fn[40]; bool es; int need; } cb[NC];
static npy_array_t *arr[NA]; static bool mapped[NA]; static npy_array_list_t *lst[NLST];
static const char *metric_names[] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy", "binary_accuracy", "categorical_accuracy" };
static int nsteps[40]; static bool heavy;
static gbuf input( int n ) { gbuf g = gb_new( n, rndi( -1, 3 )); fill_input( g.p, n ); gb_ro( &g, true ); return g; }
static gbuf target( int k, int n, int loss ) { gbuf g = gb_new( k * n, rndi( -1, 3 )); for ( int i = 0; i < k; i++ ) fill_target( g.p + i * n, n, loss ); gb_ro( &g, true ); return g; }
static void done( gbuf *g, const char *what ) { if ( !gb_intact( g )) viol( "outside", "%s: written outside the given memory", what ); gb_free( g ); }
static void say( const char *what ) { curadd( " %s", what ); scribble( rnd() % 3 ^ ( fillbyte & 1 )); }
static int pick( int n, bool (*ok)( int )) { int c[16], k = 0; for ( int i = 0; i < n; i++ ) if ( ok( i )) c[k++] = i; return k ? c[rndi( 0, k - 1 )] : -1; }
static bool nn_free( int i ) { return !net[i].nn; } static bool nn_used( int i ) { return net[i].nn; } static bool nn_init( int i ) { return net[i].nn && net[i].init; }
static bool nn_train( int i )       /* softmax has its derivative only together with the cross entropy */
{
    if ( !net[i].nn || !net[i].init || net[i].loss < 0 ) return false;
    spec_t *s = &net[i].s; for ( int l = 0; l < s->L - 1; l++ ) if ( s->act[l] == A_SOFTMAX ) return false;
    return ( s->act[s->L-1] == A_SOFTMAX ) == ( net[i].loss == L_CCE );
}
static bool o_free( int i ) { return !opt[i].o; } static bool o_used( int i ) { return opt[i].o; } static bool o_live( int i ) { return opt[i].o && !opt[i].dead; }
static bool c_free( int i ) { return !cb[i].c; } static bool c_used( int i ) { return cb[i].c; }
static bool a_free( int i ) { return !arr[i]; } static bool a_used( int i ) { return arr[i]; } static bool l_used( int i ) { return lst[i]; }
static bool nn_nouse( int i ) { return net[i].nn && !net[i].opts; } static bool nn_free2( int i ) { return net[i].nn; }
static void no_progress( int x, int n, const char *f, ... ) { (void) x; (void) n; (void) f; }
static const char *customs[] = { "tanf@libm.so.6", "erff@libm.so.6" };
static npy_array_t *rnd_arr( void )
{
    npy_array_t *a = calloc( 1, sizeof *a ); a->ndim = rndi( 0, 4 ); a->typechar = "fiucSUb"[rndi( 0, 6 )];
    a->elem_size = a->typechar == 'S' ? rndi( 1, 9 ) : a->typechar == 'U' ? 4 * rndi( 1, 5 ) : a->typechar == 'b' ? 1 : a->typechar == 'c' ? 8 : 1 << rndi( a->typechar == 'f' ? 2 : 0, 3 );
    if ( a->typechar == 'c' && chance( 0.5 )) a->elem_size = 16;
    a->fortran_order = chance( 0.3 ); size_t n = a->elem_size; for ( int i = 0; i < a->ndim; i++ ) n *= a->shape[i] = rndi( 0, 30 ) ? rndi( 1, 9 ) : 0;
    if ( a->ndim < 2 ) a->fortran_order = false;
    a->data = malloc( n ? n : 1 ); for ( size_t i = 0; i < n; i++ ) a->data[i] = a->typechar == 'b' ? rnd() & 1 : a->typechar == 'U' && i % 4 ? 0 : rnd(); return a;
}
static void free_opt( int i ) { optimizer_free( opt[i].o ); opt[i].o = NULL; free( opt[i].mf ); opt[i].mf = NULL; net[opt[i].net].opts -= !opt[i].dead; }
static void free_net( int i )
{
    for ( int k = 0; k < NO; k++ ) if ( opt[k].o && opt[k].net == i && !opt[k].dead ) { opt[k].dead = true; net[i].opts--; }     /* as the examples do */
    neuralnet_free( net[i].nn ); net[i].nn = NULL;
}
static metric_func *rnd_metrics( int *n )
{
    *n = rndi( 1, 4 ); metric_func *m = malloc( ( *n + 1 ) * sizeof *m ); for ( int k = 0; k < *n; k++ ) m[k] = get_metric_func( metric_names[rndi( 0, 6 )] ); m[*n] = NULL; return m;
}
static void old_file( const char *fn )      /* something is there already */
{
    FILE *f = fopen( fn, "wb" ); int k = rndi( 0, 4 );
    if ( k == 1 ) fputs( "some other file\n", f );
    if ( k == 2 ) for ( int i = rndi( 1, 900 ); i--; ) fputc( rnd() & 255, f );
    if ( k == 3 ) for ( int i = 0; i < 4; i++ ) fprintf( f, "[12:00:0%d] Epoch %3d mean_squared_error: 1.00000e+00 \n", i, i );
    if ( k == 4 ) { for ( int i = 0; i < 700; i++ ) fputc( 'x', f ); fputs( "\n[12:00:00] Epoch 9", f ); }
    fclose( f );
}
static void step( void )
{
    int i, j, k, op = rndi( 0, 29 ); nsteps[op]++;
    switch ( op ) {
        case 0: case 1: if (( i = pick( NN, nn_free )) < 0 ) return; say( "create" );
            spec_random( &net[i].s, 4, heavy ? 150 : 40, chance( 0.2 )); if ( chance( 0.08 )) spec_deep( &net[i].s ); net[i].custom = chance( 0.1 ); net[i].loss = -1; net[i].init = false; net[i].opts = 0;
            if ( net[i].custom ) {
                int sz[MAXL+1]; char *nm[MAXL+1]; spec_t *s = &net[i].s; for ( j = 0; j <= s->L; j++ ) sz[j] = s->sz[j]; for ( j = 0; j < s->L; j++ ) nm[j] = (char*) act_names[s->act[j]];
                nm[rndi( 0, s->L - 1 )] = (char*) ( chance( 0.3 ) ? "unknown" : customs[rndi( 0, 1 )] ); nm[s->L] = NULL; net[i].nn = neuralnet_create( s->L, sz, nm );
            } else net[i].nn = spec_create( &net[i].s );
            if ( !net[i].nn ) { viol( "create", "there is no network %s", net[i].s.desc ); return; }
            if ( chance( 0.8 )) { fill_params( net[i].nn ); net[i].init = true; } break;
        case 2: if (( i = pick( NN, nn_used )) < 0 ) return; say( "initialize" ); {
            static char *nm[] = { "xavier", "kaiming", "other" }; char *ini[MAXL+1]; for ( j = 0; j < net[i].s.L; j++ ) ini[j] = nm[rndi( 0, 2 )]; ini[net[i].s.L] = NULL;
            neuralnet_initialize( net[i].nn, chance( 0.5 ) ? NULL : ini ); net[i].init = true; 
            /* (the normal distribution keeps one number from call to call, over all networks) */
            for ( j = 0; j < net[i].s.L; j++ ) { layer_t *y = net[i].nn->layer + j; for ( k = 0; k < y->n_input * y->n_output; k++ ) if ( !( fabsf( y->weight[k] ) < 1e3f )) { viol( "garbage", "a weight is %g after initialize", y->weight[k] ); return; } for ( k = 0; k < y->n_output; k++ ) if ( y->bias[k] != 0 ) { viol( "garbage", "a bias is %g after initialize", y->bias[k] ); return; } }
            srand( 4711 ); fill_params( net[i].nn ); break; }
        case 3: case 4: if (( i = pick( NN, nn_used )) < 0 ) return; say( "set_loss" ); {
            spec_t *s = &net[i].s; int a = s->act[s->L-1]; if ( net[i].custom ) { j = rndi( 0, 2 ); } else do j = rndi( 0, L_N - 1 ); while (( j == L_CCE && a != A_SOFTMAX ) || ( j == L_BCE && a != A_SIGMOID ));
            neuralnet_set_loss( net[i].nn, loss_names[j] ); net[i].loss = j; see( "loss", get_loss_name( net[i].nn->loss ), 4 ); break; }
        case 5: case 6: if (( i = pick( NN, nn_init )) < 0 ) return; say( "predict" ); {
            gbuf x = input( net[i].s.sz[0] ), y = gb_new( net[i].s.sz[net[i].s.L], rndi( -1, 3 )); neuralnet_predict( net[i].nn, x.p, y.p ); see( "predict", y.p, y.n * 4 ); done( &x, "predict input" ); done( &y, "predict" ); break; }
        case 7: if (( i = pick( NN, nn_init )) < 0 ) return; say( "batch" ); {
            k = rndi( 1, heavy ? 300 : 20 ); gbuf x = input( k * net[i].s.sz[0] ), y = gb_new( k * net[i].s.sz[net[i].s.L], rndi( -1, 3 )); neuralnet_predict_batch( net[i].nn, k, x.p, y.p ); see( "batch", y.p, y.n * 4 ); done( &x, "batch input" ); done( &y, "batch" ); break; }
        case 8: if (( i = pick( NN, nn_init )) < 0 ) return; say( "evaluate" ); {
            int nm; metric_func *m = rnd_metrics( &nm ); k = rndi( 1, heavy ? 200 : 20 ); gbuf x = input( k * net[i].s.sz[0] ), y = target( k, net[i].s.sz[net[i].s.L], net[i].loss < 0 ? 0 : net[i].loss ), r = gb_new( nm, -1 );
            evaluate( net[i].nn, k, x.p, y.p, m, r.p ); see( "evaluate", r.p, 4 * nm ); done( &x, "evaluate input" ); done( &y, "evaluate target" ); done( &r, "evaluate" ); free( m ); break; }
        case 9: case 10: if (( i = pick( NN, nn_train )) < 0 ) return; if ( net[i].custom ) return; say( "backprop" ); {
            unsigned np = neuralnet_total_n_parameters( net[i].nn ); gbuf x = input( net[i].s.sz[0] ), t = target( 1, net[i].s.sz[net[i].s.L], net[i].loss ), g = gb_new( np, 0 );
            neuralnet_backpropagation( net[i].nn, x.p, t.p, g.p ); see( "backprop", g.p, 4 * np ); done( &x, "backprop input" ); done( &t, "backprop target" );
            if ( chance( 0.5 )) { for ( unsigned q = 0; q < np; q++ ) g.p[q] = (float)( 0.01 * rndn()); gb_ro( &g, true ); neuralnet_update( net[i].nn, g.p ); gb_ro( &g, false ); see_net( "update", net[i].nn ); }
            done( &g, "gradient" ); break; }
        case 11: if (( i = pick( NN, nn_init )) < 0 ) return; say( "get_parameters" ); { unsigned np = neuralnet_total_n_parameters( net[i].nn ); gbuf g = gb_new( np, rndi( -1, 3 )); neuralnet_get_parameters( net[i].nn, g.p ); see( "parameters", g.p, 4 * np ); done( &g, "parameters" ); break; }
        case 12: if (( i = pick( NN, nn_init )) < 0 ) return; say( "save" ); neuralnet_save( net[i].nn, "net%d.npz", rndi( 0, 2 )); break;
        case 13: say( "load" ); {
            static const char *fn[] = { "net0.npz", "net1.npz", "net2.npz", "garbage", "nosuchfile", "a0.npy", "l0.npz" }; int f = rndi( 0, 6 ); neuralnet_t *nn = neuralnet_load( fn[f] ); if ( !nn ) { see( "load", "no", 2 ); break; }
            see_net( "load", nn ); neuralnet_free( nn ); break; }
        case 14: case 15: if (( i = pick( NN, nn_train )) < 0 || ( j = pick( NO, o_free )) < 0 || net[i].custom ) return; say( "optimizer" ); {
            opt[j].net = i; opt[j].dead = false; opt[j].mf = NULL; opt[j].nm = 1; if ( chance( 0.7 )) opt[j].mf = rnd_metrics( &opt[j].nm );
            optimizer_properties_t op = OPTIMIZER_PROPERTIES( .batchsize = rndi( 1, 20 ), .shuffle = chance( 0.6 ), .metrics = opt[j].mf, .progress = chance( 0.3 ) ? progress_ascii : chance( 0.5 ) ? no_progress : NULL );
            float lr = (float)( 0.001 + 0.01 * rndu()), mom = chance( 0.6 ) ? 0.7f : 0, dec = chance( 0.5 ) ? 0.01f : 0; bool nes = chance( 0.5 );
            switch ( rndi( 0, 3 )) {
                case 0: opt[j].o = OPTIMIZER( SGD_new( net[i].nn, op, SGD_PROPERTIES( .learning_rate = lr, .decay = dec, .momentum = mom, .nesterov = nes ))); break;
                case 1: opt[j].o = OPTIMIZER( RMSprop_new( net[i].nn, op, RMSPROP_PROPERTIES( .learning_rate = lr, .rho = 0.9f, .decay = dec, .momentum = mom, .nesterov = nes ))); break;
                case 2: opt[j].o = OPTIMIZER( adagrad_new( net[i].nn, op, ADAGRAD_PROPERTIES( .learning_rate = lr, .decay = dec ))); break;
                default: opt[j].o = OPTIMIZER( adam_new( net[i].nn, op, ADAM_PROPERTIES( .learning_rate = lr, .weight_decay = dec ))); break;
            } net[i].opts++; break; }
        case 16: case 17: case 18: case 19: if (( j = pick( NO, o_live )) < 0 ) return; say( "epoch" ); {
            i = opt[j].net; int n = chance( 0.1 ) ? 1 : rndi( 1, heavy ? 150 : 50 ), nv = chance( 0.5 ) ? rndi( 1, 10 ) : 0, ni = net[i].s.sz[0], no = net[i].s.sz[net[i].s.L], nr = opt[j].nm * ( nv ? 2 : 1 );
            gbuf x = input( n * ni ), y = target( n, no, net[i].loss ), vx = input( nv * ni + 1 ), vy = target( nv + 1, no, net[i].loss ), r = gb_new( nr, -1 );
            optimizer_run_epoch( opt[j].o, n, x.p, y.p, nv, nv ? vx.p : NULL, nv ? vy.p : NULL, r.p ); see_net( "epoch", net[i].nn ); see( "results", r.p, 4 * nr );
            done( &x, "epoch" ); done( &y, "epoch" ); done( &vx, "epoch" ); done( &vy, "epoch" );
            while (( k = pick( NC, c_used )) >= 0 && chance( 0.7 )) { say( "callback" ); if ( cb[k].need > nr ) break; gb_ro( &r, true ); callback_run( cb[k].c, opt[j].o, r.p, nv > 0 ); gb_ro( &r, false ); if ( cb[k].es ) { bool b = earlystopping_do_stop( (earlystopping_t*) cb[k].c ); see( "stop", &b, 1 ); } }
            done( &r, "results" ); break; }
        case 20: if (( i = pick( NC, c_free )) < 0 ) return; say( "callback_new" ); cb[i].kind = rndi( 0, 2 ); cb[i].es = false; k = rndi( -1, 1 ); cb[i].need = k < 0 ? 1 : k + 1; snprintf( cb[i].fn, sizeof cb[i].fn, "cb%d.%d", i, cb[i].kind );
            if ( cb[i].kind && chance( 0.4 )) old_file( cb[i].fn );
            switch ( cb[i].kind ) {
                case 0: cb[i].c = CALLBACK( earlystopping_new( EARLYSTOPPING_SETTINGS( .patience = rndi( 0, 3 ), .monitor_idx = k, .greater_is_better = chance( 0.5 )))); cb[i].es = true; break;
                case 1: cb[i].c = CALLBACK( modelcheckpoint_new( MODELCHECKPOINT_SETTINGS( .filename = cb[i].fn, .monitor_idx = k, .greater_is_better = chance( 0.5 ), .verbose = chance( 0.5 )))); break;
                default: cb[i].c = CALLBACK( logger_new( LOGGER_SETTINGS( .filename = chance( 0.8 ) ? cb[i].fn : NULL, .no_stdout = chance( 0.3 ), .epoch_count = rndi( 0, 2 )))); cb[i].need = 1; break;
            } break;
        case 21: switch ( rndi( 0, 2 )) {
            case 0: if (( i = pick( NC, c_used )) < 0 ) return; say( "callback_free" ); callback_free( cb[i].c ); cb[i].c = NULL; see_file( "log", cb[i].fn ); unlink( cb[i].fn ); break;
            case 1: if (( i = pick( NO, o_used )) < 0 ) return; say( "optimizer_free" ); free_opt( i ); break;
            default: if (( i = pick( NN, chance( 0.3 ) ? nn_free2 : nn_nouse )) < 0 ) return; say( "free" ); free_net( i ); break; } break;
        case 22: case 23: if (( i = pick( NA, a_free )) < 0 ) return; {
            char fn[20]; snprintf( fn, sizeof fn, "a%d.npy", rndi( 0, 2 )); mapped[i] = false;
            if ( chance( 0.5 )) { say( "array_save" ); npy_array_t *a = rnd_arr(); npy_array_save( fn, a ); see_file( "npy", fn ); free( a->data ); free( a ); }
            for ( j = 0; j < NA; j++ ) if ( arr[j] && mapped[j] ) break;         /* (an array that is saved over while mapped: no) */
            if ( chance( 0.5 )) { say( "array_load" ); arr[i] = npy_array_load( chance( 0.9 ) ? fn : "garbage" ); }
            else { say( "array_mmap" ); arr[i] = npy_array_mmap( chance( 0.9 ) ? fn : "garbage" ); if ( arr[i] ) { unlink( fn ); mapped[i] = true; } }
            if ( arr[i] ) see_arr( "array", arr[i] ); break; }
        case 24: if (( i = pick( NA, a_used )) < 0 ) return; say( "array_dump" ); npy_array_dump( arr[i] ); break;
        case 25: if (( i = pick( NA, a_used )) < 0 ) return; say( "array_free" ); npy_array_free( arr[i] ); arr[i] = NULL; break;
        case 26: case 27: i = rndi( 0, NLST - 1 ); if (( j = pick( NA, a_used )) < 0 ) return; if ( mapped[j] ) return;        /* a list owns its arrays */
            say( "list" ); lst[i] = chance( 0.5 ) ? npy_array_list_append( lst[i], arr[j], "%s%d.npy", "member_", rndi( 0, 99 )) : npy_array_list_prepend( lst[i], arr[j], "m%d.npy", rndi( 0, 9999 )); arr[j] = NULL; k = npy_array_list_length( lst[i] ); see( "length", &k, sizeof k ); break;
        case 28: i = rndi( 0, NLST - 1 ); if ( chance( 0.5 )) { if ( !lst[i] ) return; say( "list_save" ); k = chance( 0.5 ) ? npy_array_list_save( "l0.npz", lst[i] ) : npy_array_list_save_compressed( "l0.npz", lst[i], ZIP_CM_DEFLATE, 1 ); see( "saved", &k, sizeof k ); }
            else { if ( lst[i] ) { say( "list_free" ); npy_array_list_free( lst[i] ); } say( "list_load" ); lst[i] = npy_array_list_load( chance( 0.9 ) ? "l0.npz" : "garbage" ); for ( npy_array_list_t *l = lst[i]; l; l = l->next ) { see( "name", l->filename, strlen( l->filename )); see_arr( "member", l->array ); } } break;
        default: say( "names" ); { const char *n = act_names[rndi( 0, A_N - 1 )]; const char *m = get_activation_name( get_activation_func( n )); see( "name", m, strlen( m )); n = metric_names[rndi( 0, 6 )]; m = get_metric_name( get_metric_func( n )); see( "name", m, strlen( m )); get_loss_func( "nosuch" ); get_metric_func( "nosuch" ); get_activation_func( "nosuch" ); 
            k = rndi( 1, 30 ); for ( j = 1; j <= k; j++ ) progress_ascii( j, k, "p%d: ", 7 ); break; }
    }
}
static int sout = -1;
static void sequence( uint64_t s, int n )
{
    rnd_seed( s ); srand( 4711 ); H = nt = 0; memset( net, 0, sizeof net ); memset( opt, 0, sizeof opt ); memset( cb, 0, sizeof cb ); memset( arr, 0, sizeof arr ); memset( lst, 0, sizeof lst );
    heavy = chance( 0.1 ); if ( heavy ) n = n / 3 + 1; FILE *f = fopen( "garbage", "wb" ); for ( int i = rndi( 0, 300 ); i > 0; i-- ) fputc( rnd() & 255, f ); fclose( f );
    if ( ftruncate( sout, 0 )) {}
    while ( n-- ) step();
    int left[NN + NO + NC + NA + NLST], nl = 0; for ( int i = 0; i < NN + NO + NC + NA + NLST; i++ ) left[nl++] = i;
    for ( int i = nl - 1; i > 0; i-- ) { int j = rndi( 0, i ), t = left[i]; left[i] = left[j]; left[j] = t; }
    curadd( "; the end" );
    for ( int q = 0; q < nl; q++ ) {
        int i = left[q]; scribble( i % 3 );
        if ( i < NN ) { if ( net[i].nn ) free_net( i ); continue; } i -= NN;
        if ( i < NO ) { if ( opt[i].o ) free_opt( i ); continue; } i -= NO;
        if ( i < NC ) { if ( cb[i].c ) { callback_free( cb[i].c ); see_file( "file of a callback", cb[i].kind == 2 ? cb[i].fn : "nosuch" ); unlink( cb[i].fn ); } continue; } i -= NC;
        if ( i < NA ) { if ( arr[i] ) npy_array_free( arr[i] ); continue; } i -= NA;
        if ( lst[i] ) npy_array_list_free( lst[i] );
    }
    fflush( stdout ); 
    if ( !MSAN ) { char fn[40]; snprintf( fn, sizeof fn, "/proc/self/fd/%d", sout ); see_file( "output", fn ); }
    static const char *fs[] = { "net0.npz", "net1.npz", "net2.npz", "a0.npy", "a1.npy", "a2.npy", "l0.npz", "garbage" }; for ( int i = 0; i < 8; i++ ) unlink( fs[i] );
}
static void api( long c )
{
    uint64_t s = rnd(); int n = rndi( 5, 120 ), thr = chance( 0.5 ) ? 1 : rndi( 2, 4 );
    omp_set_num_threads( thr ); static const int fills[] = { 0, 0xff, 0x7f, 0x41, 0x80, 0x3c };
    static uint64_t t0[4096]; int n0 = 0; long h[6]; acct_t a[6]; int reps = 3;
    for ( int r = 0; r < reps; r++ ) {
        fillbyte = fills[r]; cur( "sequence of %d steps with %d threads, time %d:", n, thr, r ); sequence( s, n ); h_evals++;
        h[r] = held(); a[r] = h_acct();
        if ( !r ) { memcpy( t0, trace, sizeof *t0 * nt ); n0 = nt; cover( H ); }
        else if ( thr == 1 && !CBLAS ) {
            int k = 0; while ( k < n0 && k < nt && t0[k] == trace[k] ) k++;
            if ( k < n0 || k < nt ) { viol( "garbage", "what %s gives depends on what was in memory before", k < nt ? tname[k] : "the end" ); return; }
        }
        if ( r >= 1 && r < 5 && r == reps - 1 && ( h[r] > h[r-1] || a[r].fds > a[r-1].fds || a[r].maps > a[r-1].maps )) reps++;
    }
    if ( reps == 6 ) {
        cur( "sequence of %d steps with %d threads, time 6:", n, thr );
        if ( h[5] > h[4] ) viol( "leak", "%ld %s left each time", h[5] - h[4], H_ASAN ? "bytes" : "blocks of memory" );
        else if ( a[5].fds > a[4].fds ) viol( "leak", "%d files left open each time", a[5].fds - a[4].fds );
        else if ( a[5].maps > a[4].maps ) viol( "leak", "%d files left mapped each time", a[5].maps - a[4].maps );
        return;
    }
    if ( c % 97 == 0 ) sample( "%.700s", h_cur );
}
/* ---- networks too big for the stack? */
static void big_stack( char **argv )
{
    struct rlimit r; getrlimit( RLIMIT_STACK, &r );
    if ( r.rlim_cur != 8u << 20 ) { r.rlim_cur = 8u << 20; if ( r.rlim_max != RLIM_INFINITY && r.rlim_max < r.rlim_cur ) exit( 3 ); setrlimit( RLIMIT_STACK, &r ); execv( "/proc/self/exe", argv ); exit( 3 ); }
}
static void bigtrain( const char *act, int in, int hidden, int out )
{
    cur( "an epoch of %d-%d-%d on an 8 MB stack", in, hidden, out ); omp_set_num_threads( 1 );
    neuralnet_t *nn = neuralnet_create( 2, INT_ARRAY( in, hidden, out ), STR_ARRAY( (char*) act, "softmax" )); neuralnet_initialize( nn, NULL ); neuralnet_set_loss( nn, "categorical_crossentropy" );
    optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .batchsize = 2, .progress = NULL ), SGD_PROPERTIES( .learning_rate = 0.01f )));
    gbuf x = input( 4 * in ), y = target( 4, out, L_CCE ); float r[1]; optimizer_run_epoch( o, 4, x.p, y.p, 0, NULL, NULL, r );
    if ( !( r[0] == r[0] )) viol( "nan", "the loss is NaN" );
    gb_free( &x ); gb_free( &y ); neuralnet_free( nn ); optimizer_free( o ); h_evals++; cover( in * 100000 + hidden );
}
int main( int argc, char **argv )
{
    if ( argc > 1 && !strncmp( argv[1], "big", 3 )) big_stack( argv );
    h_init( argc, argv ); if ( chdir( h_dir )) { perror( h_dir ); return 3; }
    sout = memfd_create( "out", 0 ); fcntl( sout, F_SETFL, O_APPEND ); fflush( stdout ); dup2( sout, 1 );
    setvbuf( stdout, NULL, _IONBF, 0 ); cover( 1 );
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c );
        if ( !strcmp( h_mode, "api" )) api( c );
        else if ( !strcmp( h_mode, "bigtrain" )) bigtrain( "relu", 784, 1024, 10 );
        else if ( !strcmp( h_mode, "bigfit" )) bigtrain( c & 1 ? "relu" : "tanh", 784, rndi( 300, 600 ), 10 );
    }
    for ( int i = 0; i < 30; i++ ) if ( nsteps[i] ) { char b[40]; static const char *nm[] = { "create","create","initialize","set_loss","set_loss","predict","predict","predict_batch","evaluate","backprop","backprop","get_parameters","save","load","optimizer_new","optimizer_new","epoch","epoch","epoch","epoch","callback_new","free","array","array","array_dump","array_free","list","list","list_io","names" }; snprintf( b, sizeof b, "calls_%s", nm[i] ); stat_add( b, nsteps[i] ); }
    h_finish(); return 0;
}
