/* C23: custom activations. argv[8]: a table "<name> <a> <b> <deriv>" of f(x) = a x + b and its derivative a; argv[9]: a library whose destructor calls us. 
 * Linked with --wrap=dlopen --wrap=dlclose: what is open is counted. Each case runs in a process of its own that ends with exit(). */
#include "h.h"
#include "acct.h"
#include "ref.h"
#include <dlfcn.h>
#include "SGD.h"
#include "neuralnet_predict_batch.h"
#include "metrics.h"
void *__real_dlopen( const char *, int ); int __real_dlclose( void * );
static long n_open, n_close, n_failed; static int bad_close;
static struct { void *h; int n; } hs[4096]; static int nhs;
void *__wrap_dlopen( const char *f, int m ) { void *h = __real_dlopen( f, m ); if ( h ) { n_open++; int i = 0; while ( i < nhs && hs[i].h != h ) i++; if ( i == nhs && nhs < 4095 ) hs[nhs++].h = h; hs[i].n++; } else n_failed++; return h; }
int __wrap_dlclose( void *h ) { int i = 0; while ( i < nhs && hs[i].h != h ) i++; if ( i == nhs || hs[i].n == 0 ) { bad_close++; return -1; } hs[i].n--; n_close++; return __real_dlclose( h ); }
typedef struct { char *name; float a, b; int deriv; } act_t;    /* deriv: 2 a function of the whole vector, a x + b mean(x), 1 there is one, 0 there is none, -1 nothing of that name (linear) */
static act_t *tab; static int ntab;
static act_t builtin[] = { { "linear", 1, 0, 1 }, { "softplus" }, { "sigmoid" }, { "tanh" } };
static char *bogus[] = { "nosuchsymbol@%s", "f@/nonexistent/lib.so", "f@libnotthere.so", "@", "f@", "@%s", "noat", "", "RELU", "f @", "f@/dev/null", "f@/", "f@%s.missing", "elsewhere@%s", "elsewhere", "elsewhere@%s" };
static char *anylib;
static struct { acct_t start; int ended; long open, close; int bad; size_t heap; int fds, maps; } *sh;
static void at_end( void )
{
    acct_t a = h_acct(); sh->ended = 1; sh->open = n_open; sh->close = n_close; sh->bad = bad_close;
    sh->heap = a.heap > sh->start.heap ? a.heap - sh->start.heap : 0; sh->fds = a.fds - sh->start.fds; sh->maps = a.maps - sh->start.maps;
}
static double fwd( const act_t *t, double x, double *d )
{
    if ( !strcmp( t->name, "softplus" )) { *d = 1 / ( 1 + exp( -x )); return log1p( exp( x )); }
    if ( !strcmp( t->name, "sigmoid" )) { double y = 1 / ( 1 + exp( -x )); *d = y * ( 1 - y ); return y; }
    if ( !strcmp( t->name, "tanh" )) { double y = tanh( x ); *d = 1 - y * y; return y; }
    *d = t->a; return t->a * x + t->b;
}
typedef struct { neuralnet_t *nn; int L, sz[9]; const act_t *t[8]; bool trainable; } net;
static void describe( char *s, size_t n, const net *w ) { int k = snprintf( s, n, "{%d", w->sz[0] ); for ( int l = 0; l < w->L && k < (int) n - 200; l++ ) k += snprintf( s + k, n - k, ",%d:%.60s%s", w->sz[l+1], w->t[l]->name, strlen( w->t[l]->name ) > 60 ? "..." : "" ); snprintf( s + k, n - k, "}" ); }
static char desc[2000];
static bool is_close( double x, double y, double m ) { return fabs( x - y ) <= 2e-4 * ( m + 1e-3 ); }
static void forward( const net *w, const float *x, double (*a)[64], double (*d)[64], double (*mag)[64] )
{
    const neuralnet_t *nn = w->nn; 
    for ( int i = 0; i < w->sz[0]; i++ ) { a[0][i] = x[i]; mag[0][i] = fabs( x[i] ); }
    for ( int l = 0; l < w->L; l++ ) {
        int no = w->sz[l+1]; double z[64], m[64], mean = 0, mm = 0; const act_t *t = w->t[l];
        for ( int j = 0; j < no; j++ ) {
            m[j] = fabs( z[j] = nn->layer[l].bias[j] ); for ( int i = 0; i < w->sz[l]; i++ ) { double q = nn->layer[l].weight[i * no + j]; z[j] += a[l][i] * q; m[j] += mag[l][i] * fabs( q ); }
            mean += z[j] / no; if ( m[j] > mm ) mm = m[j];
        }
        for ( int j = 0; j < no; j++ ) {
            if ( t->deriv == 2 ) { a[l+1][j] = t->a * z[j] + t->b * mean; d[l+1][j] = 1; mag[l+1][j] = mm * ( 1 + fabs( t->a ) + fabs( t->b )); }
            else { a[l+1][j] = fwd( t, z[j], &d[l+1][j] ); mag[l+1][j] = m[j] * ( 1 + fabs( t->a )) + fabs( t->b ) + fabs( a[l+1][j] ); }
        }
    }
}
/* the gradient by what the activation was given, from that by what it returned */
static void backward( const act_t *t, int n, double *g, double *gm, const double *d, const double *mag, double (*fm)( double, double, double ) )
{
    double mean = 0, mm = 0; for ( int i = 0; i < n; i++ ) { mean += g[i] / n; if ( gm[i] > mm ) mm = gm[i]; }
    for ( int i = 0; i < n; i++ ) if ( t->deriv == 2 ) { g[i] = t->a * g[i] + t->b * mean; gm[i] = mm * ( fabs( t->a ) + fabs( t->b ) + 1e-3 ); } else { g[i] *= d[i]; gm[i] = fm( gm[i], d[i], mag[i] ); }
}
static double fm_out( double m, double d, double mag ) { (void) mag; return m * ( fabs( d ) + 1e-3 ); }
static double fm_in( double m, double d, double mag ) { return m * ( fabs( d ) + mag * 1e-2 + 1e-3 ); }
static void use( const net *w, const char *when )
{
    const neuralnet_t *nn = w->nn; float x[64], y[64], t[64]; static double a[9][64], d[9][64], mag[9][64];
    int no = w->sz[w->L];
    if ( chance( 0.3 )) {       /* a batch */
        int n = rndi( 1, 9 ); float X[64 * 9], Y[64 * 9];
        for ( int i = 0; i < n * w->sz[0]; i++ ) X[i] = rndn();
        neuralnet_predict_batch( nn, n, X, Y );
        for ( int r = 0; r < n; r++ ) {
            forward( w, X + r * w->sz[0], a, d, mag );
            for ( int i = 0; i < no; i++ ) if ( !is_close( Y[r * no + i], a[w->L][i], mag[w->L][i] )) { viol( "batch", "%s: output %d of row %d of %d is %g instead of %g in %s", when, i, r, n, Y[r * no + i], a[w->L][i], desc ); return; }
        }
        stat_add( "batches", 1 );
    }
    for ( int i = 0; i < w->sz[0]; i++ ) x[i] = rndn();
    forward( w, x, a, d, mag );
    neuralnet_predict( nn, x, y );
    for ( int i = 0; i < no; i++ ) if ( !is_close( y[i], a[w->L][i], mag[w->L][i] )) { viol( "prediction", "%s: output %d is %g instead of %g in %s", when, i, y[i], a[w->L][i], desc ); return; }
    stat_add( "predictions", 1 );
    if ( !w->trainable || !nn->loss ) return;
    size_t np = neuralnet_total_n_parameters( nn ); gbuf g = gb_new( np, 0 );
    for ( int i = 0; i < no; i++ ) t[i] = rndn();
    neuralnet_backpropagation( nn, x, t, g.p );
    double del[9][64], dm[9][64];
    for ( int i = 0; i < no; i++ ) { del[w->L][i] = 2 * ( a[w->L][i] - t[i] ) / no; dm[w->L][i] = 2 * ( mag[w->L][i] + fabs( t[i] )) / no; }
    backward( w->t[w->L-1], no, del[w->L], dm[w->L], d[w->L], mag[w->L], fm_out );
    for ( int l = w->L - 1; l > 0; l-- ) { for ( int i = 0; i < w->sz[l]; i++ ) {
        double s = 0, m = 0; for ( int j = 0; j < w->sz[l+1]; j++ ) { float q = nn->layer[l].weight[i * w->sz[l+1] + j]; s += q * del[l+1][j]; m += fabs( q ) * dm[l+1][j]; }
        del[l][i] = s; dm[l][i] = m;
        } backward( w->t[l-1], w->sz[l], del[l], dm[l], d[l], mag[l], fm_in );
    }
    size_t k = 0;
    for ( int l = 0; l < w->L; l++ ) {
        for ( int j = 0; j < w->sz[l+1]; j++, k++ ) if ( !is_close( g.p[k], del[l+1][j], dm[l+1][j] )) { viol( "gradient", "%s: bias %d of layer %d has %g instead of %g in %s", when, j, l, g.p[k], del[l+1][j], desc ); goto out; }
        for ( int i = 0; i < w->sz[l]; i++ ) for ( int j = 0; j < w->sz[l+1]; j++, k++ ) if ( !is_close( g.p[k], a[l][i] * del[l+1][j], ( mag[l][i] + 1e-3 ) * dm[l+1][j] )) { viol( "gradient", "%s: weight of layer %d has %g instead of %g in %s", when, l, g.p[k], a[l][i] * del[l+1][j], desc ); goto out; }
    }
    stat_add( "gradients", 1 );
out: gb_free( &g );
}
static int errfd;
static off_t said( void ) { fflush( stderr ); off_t n = lseek( errfd, 0, SEEK_END ); if ( ftruncate( errfd, 0 )) exit( 3 ); lseek( errfd, 0, SEEK_SET ); return n; }
static void child( long c )
{
    net w[60]; int n = chance( 0.1 ) ? 60 : rndi( 1, 12 ); bool exhaust = chance( 0.5 ); uint64_t hash = 0;
    net *live[60]; int nl = 0; static char seen[1000];
    for ( int i = 0; i < n; i++ ) {
        net *q = w + i; q->L = rndi( 1, chance( 0.1 ) ? 8 : 4 ); q->trainable = true; bool warn = false; char *nm[9]; int nbogus = 0;
        static char nb[9][5000]; static act_t lin[9];
        for ( int l = 0; l <= q->L; l++ ) q->sz[l] = rndi( 1, 18 );
        for ( int l = 0; l < q->L; l++ ) {
            int k = rndi( 0, 9 );
            if ( k < 2 ) { q->t[l] = builtin + rndi( 0, 3 ); nm[l] = q->t[l]->name; }
            else if ( k < 3 ) { snprintf( nb[l], sizeof nb[l], bogus[rndi( 0, sizeof bogus / sizeof *bogus - 1 )], anylib ); nm[l] = nb[l]; lin[l] = builtin[0]; q->t[l] = builtin; warn = true; nbogus++; }
            else { q->t[l] = tab + ( exhaust ? rndi( 0, ntab - 1 ) : rndi( 0, 5 ) % ntab ); nm[l] = q->t[l]->name; if ( !q->t[l]->deriv ) { q->trainable = false; if ( !seen[q->t[l] - tab]++ ) warn = true; }      /* said at least the first time */ }
            hash = h_hash( nm[l], strlen( nm[l] ), hash + q->sz[l] );
        }
        nm[q->L] = NULL;
        describe( desc, sizeof desc, q ); cur( "creating %d: %s", i, desc ); curadd( " names: %.100s", nbogus ? nm[0] : "" );
        said(); scribble( i % 3 );
        q->nn = neuralnet_create( q->L, q->sz, nm );
        off_t s = said();
        if ( !q->nn ) { viol( "create", "no network %s", desc ); return; }
        if ( warn && !s ) viol( "silent", "%d unresolved names (or a missing derivative) but no message for %s", nbogus, desc );
        bool ok = true;
        for ( int l = 0; l < q->L && ok; l++ ) {
            const char *g = get_activation_name( q->nn->layer[l].activation_func ); 
            if ( strcmp( g, q->t[l]->name ) && ( q->t[l] < tab || q->t[l] >= tab + ntab || get_activation_func( g ) != q->nn->layer[l].activation_func )) { viol( "name", "layer %d is called '%.80s' instead of '%.80s'", l, g, q->t[l]->name ); ok = false; }
        }
        fill_params( q->nn );
        if ( q->trainable ) neuralnet_set_loss( q->nn, "mean_squared_error" );
        use( q, "created" ); h_evals++;
        live[nl++] = q;
        /* through a file */
        if ( chance( 0.5 )) {
            cur( "saving and loading %s", desc );
            neuralnet_save( q->nn, "net.npz" ); neuralnet_t *m = neuralnet_load( "net.npz" );
            if ( !m ) { viol( "load", "the saved network %s cannot be loaded", desc ); }
            else {
                bool same = m->n_layers == q->L; for ( int l = 0; same && l < q->L; l++ ) same = m->layer[l].activation_func == q->nn->layer[l].activation_func;
                if ( !same ) viol( "load", "the loaded network has other activations than %s", desc );
                if ( q->trainable ) neuralnet_set_loss( m, "mean_squared_error" );
                net r = *q; r.nn = m; use( &r, "loaded" ); h_evals++;
                if ( chance( 0.5 )) { neuralnet_free( q->nn ); q->nn = m; } else neuralnet_free( m );
            }
        }
        if ( q->trainable && chance( 0.2 )) {      /* an epoch of training */
            float X[18 * 20], Y[18 * 20], res[4]; for ( int k = 0; k < 18 * 20; k++ ) { X[k] = rndn(); Y[k] = rndn(); }
            cur( "training %s", desc );
            optimizer_t *o = OPTIMIZER( SGD_new( q->nn, OPTIMIZER_PROPERTIES( .batchsize = 7, .progress = NULL, .metrics = METRIC_LIST( get_metric_func( "mean_squared_error" ))), SGD_PROPERTIES( .learning_rate = 1e-4f )));
            optimizer_run_epoch( o, 20, X, Y, 0, NULL, NULL, res ); optimizer_free( o ); 
            bool fin = true; for ( int l = 0; l < q->L; l++ ) for ( int k = 0; k < q->sz[l+1]; k++ ) if ( !( fabs( q->nn->layer[l].bias[k] ) < 1e3 )) fin = false;
            if ( !fin ) { for ( int l = 0; l < q->L; l++ ) fill_params( q->nn ); }
            use( q, "trained" ); stat_add( "epochs", 1 );
        }
        if ( nl > 1 && chance( 0.4 )) { int k = rndi( 0, nl - 1 ); describe( desc, sizeof desc, live[k] ); cur( "using and freeing %s", desc ); use( live[k], "later" ); if ( chance( 0.7 )) { neuralnet_free( live[k]->nn ); live[k] = live[--nl]; } }
    }
    while ( nl ) { int k = rndi( 0, nl - 1 ); describe( desc, sizeof desc, live[k] ); cur( "last use of %s", desc ); use( live[k], "at the end" ); neuralnet_free( live[k]->nn ); live[k] = live[--nl]; }
    unlink( "net.npz" );
    cover( hash ); stat_add( "libraries_opened", n_open ); stat_add( "libraries_not_found", n_failed );
    if ( c % 97 == 0 ) sample( "%d networks, %ld libraries opened, %ld not found, last %s", n, n_open, n_failed, desc );
}
/* what stays: thread teams, buffers of stdio, tables of our own */
static void warm_up( void )
{
    get_activation_func( "x@/nonexistent" ); fprintf( stderr, " " ); cover( 1 ); stat_add( "warm_ups", 1 ); cur( "warm-up" );
    for ( int rep = 0; rep < 3; rep++ ) {
        float X[40], R[4]; for ( int i = 0; i < 40; i++ ) X[i] = 0.01f * i;
        neuralnet_t *nn = neuralnet_create( 2, INT_ARRAY( 2, 3, 2 ), STR_ARRAY( "tanh", "linear" )); neuralnet_set_loss( nn, "mean_squared_error" );
        optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .batchsize = 7, .progress = NULL, .metrics = METRIC_LIST( get_metric_func( "mean_squared_error" ))), SGD_PROPERTIES( .learning_rate = 1e-4f )));
        optimizer_run_epoch( o, 20, X, X, 0, NULL, NULL, R ); optimizer_free( o );
        neuralnet_save( nn, "warm.npz" ); neuralnet_free( nn ); nn = neuralnet_load( "warm.npz" ); if ( nn ) neuralnet_free( nn ); unlink( "warm.npz" );
    }
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_quiet();
    if ( chdir( h_dir )) { perror( h_dir ); return 3; }
    FILE *f = fopen( argv[8], "r" ); if ( !f ) { perror( argv[8] ); return 3; }
    static char nm[8000]; float a, b; int d; tab = calloc( 1000, sizeof *tab );
    while ( fscanf( f, "%7999s %f %f %d", nm, &a, &b, &d ) == 4 ) tab[ntab++] = (act_t){ strdup( nm ), a, b, d };
    fclose( f ); if ( !ntab ) return 3;
    static char lib[8000]; snprintf( lib, sizeof lib, "%s", strchr( tab[0].name, '@' ) + 1 ); anylib = lib;
    char base[4096]; snprintf( base, sizeof base, "%s", argv[8] ); *strrchr( base, '/' ) = 0; 
    sh = mmap( NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    struct tot { uint64_t evals; } ; 
    char part[600];
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c ); memset( sh, 0, sizeof *sh ); fflush( h_out );
        snprintf( part, sizeof part, "%s/part", h_dir );
        pid_t p = fork(); if ( p < 0 ) { perror( "fork" ); return 3; }
        if ( !p ) {
            fclose( h_out ); h_out = fopen( part, "w" ); h_evals = 0; h_setn = 0; h_nstats = 0; h_dir = base;
            errfd = memfd_create( "err", 0 ); if ( !H_ASAN ) dup2( errfd, 2 ); else { int k = open( "err.txt", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600 ); close( errfd ); errfd = k; dup2( k, 2 ); }
            void *e = __real_dlopen( argv[9], RTLD_NOW | RTLD_GLOBAL ); if ( !e ) { _exit( 3 ); } void (**cb)( void ) = dlsym( e, "at_end" ); *cb = at_end;
            warm_up();
            sh->start = h_acct();
            child( c );
            h_finish();
            exit( 0 );
        }
        int st; waitpid( p, &st, 0 );
        FILE *q = fopen( part, "r" ); static char l[4096]; bool ok = false; int nv = 0;
        while ( q && fgets( l, sizeof l, q )) {
            unsigned long long u; char s[60];
            if ( l[0] == 'E' && sscanf( l, "E\t%llu", &u ) == 1 ) h_evals += u; else if ( l[0] == 'D' && sscanf( l, "D\t%llx", &u ) == 1 ) cover( u );
            else if ( l[0] == 'S' && sscanf( l, "S\t%59s\t%llu", s, &u ) == 2 ) stat_add( s, u ); else if ( !strncmp( l, "OK", 2 )) ok = true;
            else if ( l[0] == 'P' && h_nsamples++ < 4 ) fputs( l, h_out ); else if ( l[0] == 'V' ) { fputs( l, h_out ); nv++; h_nviol++; }
        }
        if ( q ) fclose( q );
        if ( WIFSIGNALED( st )) {
            if ( H_ASAN ) { FILE *ef = fopen( "err.txt", "r" ); while ( ef && fgets( l, sizeof l, ef )) if ( strstr( l, "ERROR: AddressSanitizer" ) || strstr( l, "runtime error" ) || strstr( l, "    #" )) fputs( l, stderr ); if ( ef ) fclose( ef ); }
            fflush( h_out ); signal( WTERMSIG( st ), SIG_DFL ); raise( WTERMSIG( st )); abort(); }
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 3 ) return 3;
        if ( !ok && !nv ) viol( "exit", "the process ended with status %d", st );
        else if ( ok && !nv ) {
            if ( WEXITSTATUS( st )) viol( "exit", "the process ended with status %d", st );
            else if ( !sh->ended ) viol( "exit", "exit() did not come to its end" );
            else {
                if ( sh->bad ) viol( "release", "%d libraries were closed that were not open", sh->bad );
                if ( sh->open != sh->close ) viol( "release", "%ld libraries were opened and %ld closed at exit", sh->open, sh->close );
                if ( sh->maps > 0 ) viol( "release", "%d mappings of libraries were left at exit", sh->maps );
                if ( sh->heap > 8192 ) viol( "release", "%zu bytes of heap were left at exit", sh->heap );
                if ( sh->fds > 0 ) viol( "release", "%d files were left open at exit", sh->fds );
                stat_add( "exits_watched", 1 );
            }
        }
        if ( h_nviol >= 8 ) { h_finish(); return 0; }
    }
    h_finish(); return 0;
}
