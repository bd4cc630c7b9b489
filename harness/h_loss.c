/* C05: metrics and losses against their definitions in double precision */
#include "h.h"
#include "ref.h"
#include "loss.h"
#include "metrics.h"

static int rnd_off( void ) { int k = rndi( 0, 9 ); return k == 0 ? 0 : k < 3 ? -1 : rndi( 1, 31 ); }
enum { M_MSE, M_MAE, M_MAPE, M_CCE, M_BCE, M_CACC, M_BACC, M_N };
static const char *mnames[M_N] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy", "categorical_accuracy", "binary_accuracy" };
static const char *mshort[M_N] = { "mse", "mae", "mape", "categorical_crossentropy", "binary_crossentropy", "categorical_accuracy", "binary_accuracy" };

static float rnd_prob( void )
{
    static const float sp[] = { 0, 1, 0.5000001f, 0.4999999f, 1e-7f, 1e-8f, 9.9e-8f, 1.1e-7f, 0.99999994f, 0.9999999f, 0.99999976f, 1e-20f, 1e-40f, 0.25f };
    float v = chance( 0.3 ) ? sp[ rndi( 0, 13 ) ] : chance( 0.2 ) ? (float) pow( 10, -rndu() * 12 ) : chance( 0.2 ) ? (float)( 1 - pow( 10, -rndu() * 8 )) : (float) rndu();
    return v == 0.5f ? 0.51f : v;
}
/* interval of -log(clip(p)) and -log(1-clip(p)) */
static void nlog( double p, double *lo, double *hi )
{
    if ( p < 1e-7 ) { *lo = *hi = -log( 1e-7 ); }
    else if ( p > 1 - 1.3e-7 ) { *lo = 0; *hi = 1.3e-7; }
    else *lo = *hi = -log( p );
    *lo = fmax( 0, *lo * (1 - 4e-7) - 1.2e-7 ); *hi = *hi * (1 + 4e-7) + 1.2e-7;
}
static void nlog1m( double p, double *lo, double *hi )
{
    double q = 1 - p;
    if ( q < 1.3e-7 ) { *lo = -log( 1.3e-7 ); *hi = -log( 1e-7 ); }
    else if ( p < 1e-7 ) { *lo = 0; *hi = 1e-7; }
    else *lo = *hi = -log( q );
    *lo = fmax( 0, *lo * (1 - 4e-7) - 1.2e-7 ); *hi = *hi * (1 + 4e-7) + 1.2e-7;
}
static void case_loss( void )
{
    int k = rndi( 0, M_N - 1 ), n = chance( 0.03 ) ? rndi( 1, 20000 ) : rnd_size( 150 ), op = rnd_off(), ot = rnd_off();
    metric_func mf = get_metric_func( chance( 0.5 ) ? mnames[k] : mshort[k] );
    if ( !mf ) { viol( "names", "metric %s not found", mnames[k] ); return; }
    if ( strcmp( get_metric_name( mf ), mnames[k] )) viol( "names", "metric %s is called %s", mnames[k], get_metric_name( mf ));
    cur( "metric and loss %s of %d outputs, offsets %d %d", mnames[k], n, op, ot );
    gbuf p = gb_new( n, op ), t = gb_new( n, ot );
    int style = rndi( 0, 4 ); double mag = style == 4 ? pow( 10, k == M_MAE && chance( 0.5 ) ? rndi( -30, 30 ) : k == M_MSE && chance( 0.5 ) ? rndi( -14, 14 ) : rndi( -6, 6 )) : 1;
    switch ( k ) {
        case M_MSE: case M_MAE: case M_MAPE:
            for ( int i = 0; i < n; i++ ) {
                p.p[i] = (float)( rndn() * mag ); t.p[i] = (float)( rndn() * mag );
                if ( style == 1 && chance( 0.3 )) t.p[i] = 0; if ( style == 2 && chance( 0.3 )) t.p[i] = p.p[i];
                if ( style == 3 ) { t.p[i] = fabsf( t.p[i] ) * ( chance( 0.5 ) ? 1e-8f : -1e-8f ); p.p[i] *= 1e-3f; }
            }
            break;
        case M_CCE: case M_BCE:
            for ( int i = 0; i < n; i++ ) { p.p[i] = rnd_prob(); t.p[i] = k == M_BCE ? ( style < 2 ? (float)( rnd() & 1 ) : (float) rndu() ) : 0; }
            if ( k == M_CCE ) { if ( style < 3 ) t.p[ rndi( 0, n-1 ) ] = 1; else for ( int i = 0; i < n; i++ ) t.p[i] = (float) rndu() / n; }
            break;
        case M_CACC:
            for ( int i = 0; i < n; i++ ) { p.p[i] = style == 0 ? (float) rndi( 0, 2 ) : style == 1 ? -fabsf( (float) rndn() ) - 1 : (float) rndn(); t.p[i] = style == 2 ? (float) rndn() : 0; }
            if ( style != 2 ) t.p[ rndi( 0, n-1 ) ] = 1;
            if ( chance( 0.5 )) { int a = 0; for ( int i = 1; i < n; i++ ) if ( p.p[i] > p.p[a] ) a = i; memset( t.p, 0, n * 4 ); t.p[ chance( 0.8 ) ? a : rndi( 0, n-1 ) ] = 1; }
            break;
        case M_BACC:
            for ( int i = 0; i < n; i++ ) { t.p[i] = (float)( rnd() & 1 ); p.p[i] = style == 0 ? (float)( rndn() * 3 ) : style == 1 ? ( t.p[i] ? rndu() < 0.9 : rndu() < 0.1 ) : rnd_prob(); if ( p.p[i] == 0.5f ) p.p[i] = 0.6f;
                if ( style == 3 && chance( 0.2 )) t.p[i] = t.p[i] ? 1.7f : -0.7f; }
            break;
    }
    float *ps = malloc( n * 4 ), *ts = malloc( n * 4 ); memcpy( ps, p.p, n * 4 ); memcpy( ts, t.p, n * 4 );
    gb_ro( &p, true ); gb_ro( &t, true );
    double lo = 0, hi = 0;
    switch ( k ) {
        case M_MSE: for ( int i = 0; i < n; i++ ) { double d = (double) ps[i] - ts[i]; lo += d * d; } hi = lo; break;
        case M_MAE: for ( int i = 0; i < n; i++ ) lo += fabs( (double) ps[i] - ts[i] ); hi = lo; break;
        case M_MAPE: for ( int i = 0; i < n; i++ ) lo += 100 * fabs( (double) ps[i] - ts[i] ) / fmax( fabs( ts[i] ), 1e-7 ); hi = lo; break;
        case M_CCE: for ( int i = 0; i < n; i++ ) { double a, b; nlog( ps[i], &a, &b ); lo += ts[i] * a; hi += ts[i] * b; } break;
        case M_BCE: for ( int i = 0; i < n; i++ ) { double a, b; nlog( ps[i], &a, &b ); lo += ts[i] * a; hi += ts[i] * b; nlog1m( ps[i], &a, &b ); lo += (1 - (double) ts[i]) * a; hi += (1 - (double) ts[i]) * b; } break;
        case M_CACC: { int a = 0, b = 0; for ( int i = 1; i < n; i++ ) { if ( ps[i] > ps[a] ) a = i; if ( ts[i] > ts[b] ) b = i; } lo = hi = a == b ? n : 0; break; }
        case M_BACC: for ( int i = 0; i < n; i++ ) lo += ( ps[i] > 0.5f ) == ( ts[i] > 0.5f ); hi = lo; break;
    }
    lo /= n; hi /= n;
    double rel = k == M_BACC || k == M_CACC ? 4 * U24 : (n + 6) * 1.1 * U24;
    scribble( rndi( 0, 2 ));
    float got = mf( n, p.p, t.p );
    if ( !isfinite( got ) || got < lo * (1 - rel) - 1e-40 || got > hi * (1 + rel) + 1e-40 )
        viol( "metric", "%s of %d outputs is %.9g, expected %.9g .. %.9g (p[0]=%.9g t[0]=%.9g)", mnames[k], n, got, lo, hi, ps[0], ts[0] );
    stat_add( "metric_values", 1 );
    if ( k <= M_BCE ) {
        int l = k == M_MSE ? L_MSE : k == M_MAE ? L_MAE : k == M_MAPE ? L_MAPE : k == M_CCE ? L_CCE : L_BCE, og = rnd_off();
        loss_func lf = get_loss_func( chance( 0.5 ) ? mnames[k] : mshort[k] );
        if ( !lf || strcmp( get_loss_name( lf ), mnames[k] ) || get_metric_func( get_loss_name( lf )) != mf ) { viol( "names", "loss %s", mnames[k] ); return; }
        gbuf g = gb_new( n, og );
        cur( "loss %s of %d outputs, offsets %d %d %d", mnames[k], n, op, ot, og );
        scribble( rndi( 0, 2 ));
        lf( n, p.p, t.p, g.p );
        for ( int i = 0; i < n; i++ ) {
            if ( fbits( g.p[i] ) == NANPAT ) { viol( "unwritten", "loss %s did not write element %d of %d", mnames[k], i, n ); break; }
            ed r = loss_d_ed( l, n, ed_c( ps[i] ), ts[i] );
            if ( ps[i] == ts[i] && ( l == L_MAE || l == L_MAPE )) r.e = 1.001 * ( l == L_MAE ? 1.0 / n : 100.0 / ( fmax( fabs( ts[i] ), 1e-7 ) * n ));
            if ( !ed_ok( r, g.p[i] )) { viol( "gradient", "derivative of %s, element %d of %d (prediction %.9g target %.9g) is %.9g, expected %.9g", mnames[k], i, n, ps[i], ts[i], g.p[i], r.v ); break; }
        }
        if ( !gb_intact( &g )) viol( "overwrite", "loss %s wrote beside its %d outputs", mnames[k], n );
        gb_free( &g ); stat_add( "gradient_values", n );
    }
    if ( memcmp( ps, p.p, n * 4 ) || memcmp( ts, t.p, n * 4 ) || !gb_intact( &p ) || !gb_intact( &t )) viol( "input", "%s changed its input", mnames[k] );
    cover( h_hash( (int[]){ k, n, op, ot, style }, 20, 2 ));
    if ( h_case % 301 == 0 ) sample( "%s of %d outputs: %.9g in [%.9g, %.9g]", mnames[k], n, got, lo, hi );
    free( ps ); free( ts ); gb_free( &p ); gb_free( &t );
    h_evals++;
}
static void case_names( void )
{
    static const char *bad[] = { "", "MSE", "mse ", "mean_squared", "crossentropy", "accuracy", "sparse_categorical_crossentropy", "rmse", "mean_squared_errors", "binary_crossentrop", "(unknown)" };
    for ( size_t i = 0; i < sizeof bad / sizeof *bad; i++ ) {
        cur( "unknown name '%s'", bad[i] );
        if ( get_loss_func( bad[i] )) viol( "names", "'%s' gives a loss", bad[i] );
        if ( get_metric_func( bad[i] )) viol( "names", "'%s' gives a metric", bad[i] );
        neuralnet_t *nn = neuralnet_create( 1, INT_ARRAY( 2, 2 ), STR_ARRAY( "linear" ));
        if ( !nn ) { viol( "create", "x" ); return; }
        char fn[300]; snprintf( fn, sizeof fn, "%s/msg", h_dir );
        fflush( stdout ); int o1 = dup( 1 ), o2 = dup( 2 ), fd = open( fn, O_RDWR | O_CREAT | O_TRUNC, 0600 ); dup2( fd, 1 ); dup2( fd, 2 );
        neuralnet_set_loss( nn, bad[i] ); fflush( stdout );
        off_t len = lseek( fd, 0, SEEK_END ); dup2( o1, 1 ); dup2( o2, 2 ); close( o1 ); close( o2 ); close( fd );
        if ( nn->loss ) viol( "names", "unknown loss '%s' was set", bad[i] );
        if ( len < 1 ) viol( "names", "unknown loss '%s' was not reported", bad[i] );
        neuralnet_free( nn );
    }
    for ( int k = M_CACC; k < M_N; k++ ) if ( get_loss_func( mnames[k] )) viol( "names", "%s is a loss", mnames[k] );
    if ( strcmp( get_metric_name( (metric_func) case_names ), "(unknown)" ) && 0 ) viol( "names", "foreign metric" );
    for ( int k = 0; k < M_N; k++ ) for ( int l = 0; l < k; l++ ) if ( get_metric_func( mnames[k] ) == get_metric_func( mnames[l] )) viol( "names", "%s and %s are the same", mnames[k], mnames[l] );
    h_evals++; cover( 1 );
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); heap_poison();
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c );
        if ( !strcmp( h_mode, "loss" )) case_loss();
        else if ( !strcmp( h_mode, "names" )) case_names();
        else return 2;
    }
    h_finish();
    return 0;
}
