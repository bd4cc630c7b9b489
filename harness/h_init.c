/* C18: initialisation. rand() is replaced: the real one, or a hostile mixture of its extremes. */
#include "h.h"
#include "ref.h"
#include <dlfcn.h>
static int hostile; static uint64_t calls; static uint64_t rs;
int rand( void )
{
    static int (*real)( void );
    if ( !real ) real = dlsym( RTLD_NEXT, "rand" );
    calls++;
    if ( !hostile ) return real();
    rs = h_mix( rs + calls );
    switch ( rs % 13 ) {
        case 0: return 0; case 1: return RAND_MAX; case 2: return RAND_MAX / 2; case 3: return RAND_MAX / 2 + 1; case 4: return 1; case 5: return RAND_MAX - 1;
        default: return (int)( rs >> 33 );
    }
}
static double ncdf( double x ) { return 0.5 * erfc( -x / sqrt( 2 )); }
static int cmpf( const void *a, const void *b ) { double x = *(double*) a, y = *(double*) b; return x < y ? -1 : x > y; }
/* Kolmogorov-Smirnov distance to a distribution; its sqrt(n)-scaled value exceeds 3.3 with probability below 1e-9 */
static double ks( double *v, int n, bool uniform )
{
    qsort( v, n, sizeof *v, cmpf ); double d = 0;
    for ( int i = 0; i < n; i++ ) { double f = uniform ? fmin( 1, fmax( 0, ( v[i] + 1 ) / 2 )) : ncdf( v[i] ); double a = fabs( f - (double) i / n ), b = fabs( f - (double)( i + 1 ) / n ); if ( a > d ) d = a; if ( b > d ) d = b; }
    return d * sqrt( n );
}
/* how many values lie beyond t, against the number a normal (or uniform) distribution has there; false is as unlikely as a KS above 3.3 */
static double tail_odd( const double *v, int n, bool uniform, double *at, int *seen, double *expected )
{
    static const double T[] = { 1.5, 2, 2.5, 3, 3.25, 3.5, 3.75, 4, 4.5 }, U[] = { 0.5, 0.75, 0.9, 0.99, 0.999, 0.9999 };
    double worst = 0;
    for ( int k = 0; k < ( uniform ? 6 : 9 ); k++ ) for ( int side = -1; side <= 1; side += 2 ) {
        double t = uniform ? U[k] : T[k], e = n * ( uniform ? ( 1 - t ) / 2 : ncdf( -t )); int c = 0;
        for ( int i = 0; i < n; i++ ) if ( v[i] * side > t ) c++;
        double z = fabs( c - e ) / ( 6.8 * sqrt( e ) + ( c > e ? 12 : 0 ) + 1e-9 );          /* none where e >= 46 is 1e-20 */
        if ( c < e && e < 46 ) continue;
        if ( z > worst ) { worst = z; *at = t * side; *seen = c; *expected = e; }
    }
    return worst;
}
enum { X, K, N };
static int group( int a ) { return a == A_SIGMOID || a == A_TANH || a == A_SOFTMAX || a == A_HARD_SIGMOID || a == A_SOFTSIGN ? X : a == A_RELU || a == A_SOFTPLUS ? K : N; }
static const char *gname[] = { "uniform (xavier)", "normal (kaiming)", "unit normal" };
static double *pool[3]; static int npool[3];
static char *inits_pool[] = { "xavier", "kaiming", "", "something", "XAVIER", "xavier ", "kaimin" };
static int errfd = -1;
static void plan( spec_t *s, char **ini, int *g, bool *given, bool *warns )
{
    memset( s, 0, sizeof *s );
    int kind = rndi( 0, 9 );
    if ( kind == 0 ) { s->L = 1; s->sz[0] = rndi( 20, 200 ); s->sz[1] = rndi( 20, 200 ); s->act[0] = rndi( 0, A_N - 1 ); spec_desc( s ); }
    else if ( kind == 2 ) {                  /* very wide beside very narrow */
        s->L = rndi( 1, 4 ); s->sz[0] = rndi( 1, 400 );
        for ( int l = 0; l < s->L; l++ ) { s->sz[l+1] = chance( 0.5 ) ? rndi( 1, 3 ) : s->sz[l] > 60 ? rndi( 1, 80 ) : rndi( 1, 400 ); s->act[l] = rndi( 0, A_N - 1 ); } spec_desc( s );
    }
    else if ( kind == 1 ) { s->L = rndi( 2, 5 ); int z = rndi( 1, 60 ); for ( int l = 0; l <= s->L; l++ ) s->sz[l] = z; for ( int l = 0; l < s->L; l++ ) s->act[l] = rndi( 0, A_N - 1 ); spec_desc( s ); }
    else { spec_random( s, 5, 60, true ); for ( int l = 0; l < s->L; l++ ) s->act[l] = rndi( 0, A_N - 1 ); spec_desc( s ); }
    if ( chance( 0.01 )) { spec_abyss( s ); for ( int l = 0; l < s->L; l++ ) s->act[l] = rndi( 0, A_N - 1 ); }
    *given = chance( 0.6 ); *warns = false;
    for ( int l = 0; l < s->L; l++ ) {
        ini[l] = inits_pool[rndi( 0, 6 )];
        g[l] = *given && !strcmp( ini[l], "xavier" ) ? X : *given && !strcmp( ini[l], "kaiming" ) ? K : group( s->act[l] );
        bool named = *given && ( !strcmp( ini[l], "xavier" ) || !strcmp( ini[l], "kaiming" ));
        if ( g[l] == N && !named ) *warns = true;
    }
    ini[s->L] = NULL;
}
static void case_init( long c )
{
    spec_t s; char *ini[MAXL+1]; int g[MAXL]; bool given, warns; plan( &s, ini, g, &given, &warns );
    hostile = chance( 0.3 ) ? 1 + (int)( rnd() & 0xffff ) : 0; rs = rnd();
    neuralnet_t *nn = spec_create( &s ); if ( !nn ) { viol( "create", "cannot create %s", s.desc ); return; }
    /* parameters in guarded memory; every value marked */
    gbuf w[MAXL], b[MAXL]; float *ow[MAXL], *ob[MAXL];
    for ( int l = 0; l < s.L; l++ ) {
        size_t nw = (size_t) s.sz[l] * s.sz[l+1]; ow[l] = nn->layer[l].weight; ob[l] = nn->layer[l].bias;
        w[l] = gb_new( nw, nw % 16 ? 0 : -1 ); b[l] = gb_new( s.sz[l+1], s.sz[l+1] % 16 ? 0 : -1 );
        nn->layer[l].weight = w[l].p; nn->layer[l].bias = b[l].p;
    }
    if ( !hostile ) srand( (unsigned) rnd() );
    bool unmark = chance( 0.3 );             /* sometimes there are ordinary values before */
    if ( unmark ) for ( int l = 0; l < s.L; l++ ) { for ( size_t i = 0; i < w[l].n; i++ ) w[l].p[i] = 77777; for ( size_t i = 0; i < b[l].n; i++ ) b[l].p[i] = -3; }
    cur( "%s, initializers %s %s %s, %s rand", s.desc, given ? ini[0] : "(none)", given && s.L > 1 ? ini[1] : "", given && s.L > 2 ? ini[2] : "", hostile ? "hostile" : "real" );
    if ( ftruncate( errfd, 0 )) exit( 3 ); lseek( errfd, 0, SEEK_SET );
    int save2 = dup( 2 ); dup2( errfd, 2 );
    scribble( c % 3 ); neuralnet_initialize( nn, given ? ini : NULL );
    fflush( stderr ); dup2( save2, 2 ); close( save2 );
    off_t said = lseek( errfd, 0, SEEK_END );
    if ( warns && said == 0 ) viol( "silent", "no warning for a layer without a known initializer" );
    for ( int l = 0; l < s.L; l++ ) {
        int n = w[l].n; layer_t *y = nn->layer + l;
        if ( y->weight != w[l].p || y->bias != b[l].p || y->n_input != s.sz[l] || y->n_output != s.sz[l+1] ) { viol( "layer", "layer %d was replaced", l ); continue; }
        if ( !gb_intact( &w[l] ) || !gb_intact( &b[l] )) viol( "overwrite", "memory beside the parameters of layer %d was written", l );
        for ( size_t i = 0; i < b[l].n; i++ ) if ( !( b[l].p[i] == 0 )) { viol( "bias", "bias %zu of layer %d is %g", i, l, b[l].p[i] ); break; }
        double sc = g[l] == X ? sqrt( 6.0 / ( s.sz[l] + s.sz[l+1] )) : g[l] == K ? sqrt( 2.0 / s.sz[l] ) : 1, lim = g[l] == X ? sc * ( 1 + 1e-6 ) : INFINITY;
        double *v = malloc(( n + 1 ) * sizeof *v ); double m = 0, m2 = 0, r1 = 0, r2 = 0, mx = 0; bool bad = false;
        for ( int i = 0; i < n && !bad; i++ ) {
            float x = w[l].p[i];
            if ( !isfinite( x )) { viol( "notfinite", "weight %d of %d of layer %d is %g%s", i, n, l, x, fbits( x ) == NANPAT ? " (was not written)" : "" ); bad = true; }
            else if ( unmark && x == 77777 ) { viol( "unwritten", "weight %d of %d of layer %d was not written", i, n, l ); bad = true; }
            else if ( fabs( x ) > lim ) { viol( "bound", "weight %d of %d of layer %d is %g, beyond %g", i, n, l, x, lim ); bad = true; }
            v[i] = x / sc; m += v[i]; m2 += v[i] * v[i]; if ( fabs( v[i] ) > mx ) mx = fabs( v[i] );
            if ( i > 0 ) r1 += v[i] * v[i-1]; if ( i > 1 ) r2 += v[i] * v[i-2];
        }
        if ( !bad && !hostile ) {
            double var = g[l] == X ? 1 / 3.0 : 1, kurt = g[l] == X ? 0.8 : 2;      /* variance of the square over its mean squared */
            if ( n >= 20 ) {
                double d;
                if ( fabs( m ) > 6.5 * sqrt( n * var )) viol( "mean", "the mean of %d weights of layer %d (%s) is %g standard errors off", n, l, gname[g[l]], fabs( m ) / sqrt( n * var ));
                if ( n >= 200 && fabs( m2 / n / var - 1 ) > 7.5 * sqrt( kurt / n ) + 20.0 / n ) viol( "variance", "the variance of %d weights of layer %d (%s) is %g of what it should be", n, l, gname[g[l]], m2 / n / var );
                if ( fabs( r1 ) > 7 * sqrt( n ) * var + 10 * var ) viol( "correlated", "neighbouring weights of layer %d are correlated (%g)", l, r1 / n / var );
                if ( fabs( r2 ) > 7 * sqrt( n ) * var + 10 * var ) viol( "correlated", "every other weight of layer %d is correlated (%g)", l, r2 / n / var );
                for ( int i = 0; i < n && npool[g[l]] < 2000000; i++ ) pool[g[l]][npool[g[l]]++] = v[i];
                if (( d = ks( v, n, g[l] == X )) > 3.5 ) viol( "distribution", "%d weights of layer %d are not %s (KS %.2f)", n, l, gname[g[l]], d );
                int same = 0; for ( int i = 1; i < n; i++ ) if ( v[i] == v[i-1] ) same++;
                if ( same > 3 + n / 50 ) viol( "distribution", "%d of %d weights of layer %d are equal to another one", same, n, l );
                stat_add( "layers_tested_for_distribution", 1 );
            } else for ( int i = 0; i < n && npool[g[l]] < 2000000; i++ ) pool[g[l]][npool[g[l]]++] = v[i];
            for ( int k = 0; k < l; k++ ) if ( w[k].n == w[l].n && n >= 3 && fabs( w[k].p[n/2] / ( g[k] == X ? sqrt( 6.0 / ( s.sz[k] + s.sz[k+1] )) : g[k] == K ? sqrt( 2.0 / s.sz[k] ) : 1 ) - v[n/2] ) < 0 ) {}
        }
        free( v ); stat_add( hostile ? "weights_of_hostile_rand" : "weights", n );
    }
    /* a second initialisation gives other weights */
    if ( !hostile ) {
        float **snap = params_snapshot( nn );
        save2 = dup( 2 ); dup2( errfd, 2 ); neuralnet_initialize( nn, given ? ini : NULL ); fflush( stderr ); dup2( save2, 2 ); close( save2 );
        for ( int l = 0; l < s.L; l++ ) { size_t eq = 0; for ( size_t i = 0; i < w[l].n; i++ ) if ( snap[2*l][i] == w[l].p[i] ) eq++; if ( eq > 3 + w[l].n / 50 ) { viol( "again", "initialised again, %zu of %zu weights of layer %d kept their value", eq, w[l].n, l ); break; } }
        params_free( snap, s.L );
    }
    for ( int l = 0; l < s.L; l++ ) { nn->layer[l].weight = ow[l]; nn->layer[l].bias = ob[l]; gb_free( &w[l] ); gb_free( &b[l] ); }
    neuralnet_free( nn );
    cover( h_hash( g, s.L * sizeof(int), spec_hash( &s ) + hostile ));
    if ( c % 499 == 0 ) sample( "%s", h_cur );
    h_evals++;
}
/* the same program, twice */
static void seeded( uint64_t s0, int seed, float *out )
{
    rnd_seed( s0 ); hostile = 0; if ( seed >= 0 ) srand( seed );
    int k = rndi( 1, 4 ); size_t o = 0;
    for ( int i = 0; i < k; i++ ) {
        spec_t s; char *ini[MAXL+1]; int g[MAXL]; bool given, warns; plan( &s, ini, g, &given, &warns );
        for ( int l = 0; l <= s.L; l++ ) if ( s.sz[l] > 40 ) s.sz[l] = 40;
        neuralnet_t *nn = spec_create( &s ); scribble( getpid() % 3 ); neuralnet_initialize( nn, given ? ini : NULL );
        for ( int l = 0; l < s.L; l++ ) { size_t n = (size_t) s.sz[l] * s.sz[l+1]; if ( o + n > 60000 ) break; memcpy( out + o, nn->layer[l].weight, n * 4 ); o += n; }
        neuralnet_free( nn );
    }
    out[60000] = (float) o;
}
static void case_seed( long c )
{
    uint64_t s0 = rnd(); int seed = c % 4 ? (int)( rnd() & 0x7fffffff ) : -1;
    float *m = mmap( NULL, 3 * 240016, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    cur( "the same initialisations in three processes, %s %d", seed < 0 ? "no seed" : "seed", seed );
    for ( int i = 0; i < 3; i++ ) {
        pid_t p = fork(); if ( p < 0 ) { perror( "fork" ); exit( 3 ); }
        if ( !p ) { void *pad = malloc( 100 + i * 5000 ); (void) pad; seeded( s0, i == 2 && seed >= 0 ? seed ^ 1 : seed, m + i * 60004 ); _exit( 0 ); }
        int st; waitpid( p, &st, 0 ); if ( st ) { viol( "crash:seed", "status %d", st ); return; }
    }
    size_t n = (size_t) m[60000];
    if ( m[60000] != m[60004 + 60000] || memcmp( m, m + 60004, n * 4 )) viol( "seed", "the same seed gave another network" );
    if ( seed >= 0 && n >= 30 && !memcmp( m, m + 2 * 60004, n * 4 )) viol( "seed", "another seed gave the same network" );
    munmap( m, 3 * 240016 ); stat_add( "weights_of_seeded_runs", n ); cover( s0 ); h_evals++;
}
/* millions of weights of one layer: the rare values as well */
static void big_tail( int g )
{
    static const double T[] = { 0.01, 0.1, 0.5, 1, 1.5, 2, 2.5, 3, 3.25, 3.5, 3.75, 4, 4.25, 4.5, 4.75, 5 }, U[] = { 0.001, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 0.999, 0.9999, 0.99999 };
    const double *t = g == X ? U : T; int nt = g == X ? 11 : 16, reps = 5; long cnt[2][16] = { 0 }, n = 0;
    int in = rndi( 1200, 1700 ), out = rndi( 1200, 1700 ); double sc = g == X ? sqrt( 6.0 / ( in + out )) : g == K ? sqrt( 2.0 / in ) : 1;
    cur( "a layer of (%d,%d), %s, %d times", in, out, gname[g], reps ); hostile = 0; srand( (unsigned) rnd() );
    neuralnet_t *nn = neuralnet_create( 1, (int[]){ in, out }, (char*[]){ g == X ? "tanh" : g == K ? "relu" : "linear" } ); if ( !nn ) { viol( "create", "cannot create a layer of (%d,%d)", in, out ); return; }
    int save2 = dup( 2 ); dup2( errfd, 2 );
    for ( int r = 0; r < reps; r++ ) {
        neuralnet_initialize( nn, NULL ); const float *w = nn->layer[0].weight;
        for ( long i = 0; i < (long) in * out; i++ ) {
            double v = w[i] / sc, a = fabs( v ); int s = v > 0; if ( !isfinite( v )) { viol( "notfinite", "weight %ld is %g", i, v ); break; }
            n++; for ( int k = 0; k < nt && a > t[k]; k++ ) cnt[s][k]++;
        }
    }
    fflush( stderr ); dup2( save2, 2 ); close( save2 ); neuralnet_free( nn );
    for ( int k = 0; k < nt; k++ ) for ( int s = 0; s < 2; s++ ) {
        double e = n * ( g == X ? ( 1 - t[k] ) / 2 : ncdf( -t[k] )), d = fabs( cnt[s][k] - e );
        if (( cnt[s][k] < e && e < 46 ) || d <= 6.8 * sqrt( e ) + 12 ) continue;
        viol( "distribution", "%ld of %ld weights lie beyond %s%g %s, where %.0f of a %s distribution do", cnt[s][k], n, s ? "" : "-", t[k], g == X ? "of the range" : "standard deviations", e, gname[g] ); break;
    }
    stat_add( "weights_of_large_layers", n );
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_quiet(); heap_poison();
    if ( !H_ASAN ) { int fd = open( "/dev/null", O_WRONLY ); dup2( fd, 2 ); close( fd ); }
    errfd = memfd_create( "err", 0 );
    for ( int i = 0; i < 3; i++ ) pool[i] = malloc( 2000000 * sizeof(double) );
    bool init = !strcmp( h_mode, "init" );
    for ( long c = h_from; c < h_to; c++ ) { h_begin( c ); if ( init ) case_init( c ); else case_seed( c ); }
    if ( init ) for ( int k = 0; k < 3; k++ ) if ( npool[k] >= 100 ) {     /* everything together: small deviations */
        cur( "all weights together" ); double d = ks( pool[k], npool[k], k == X );
        if ( d > 3.5 ) viol( "distribution", "%d weights of all networks together are not %s (KS %.2f)", npool[k], gname[k], d );
        double at, e; int seen; if ( tail_odd( pool[k], npool[k], k == X, &at, &seen, &e ) > 1 ) viol( "distribution", "%d of %d weights lie beyond %g standard deviations, where %.0f of a %s distribution do", seen, npool[k], at, e, gname[k] );
        stat_add( "weights_tested_together", npool[k] );
    }
    if ( init && !H_ASAN ) for ( int k = 0; k < 3; k++ ) big_tail( k );
    h_finish(); return 0;
}
