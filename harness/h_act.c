/* C04: activations and their derivatives against libm in double precision */
#include "h.h"
#include "ref.h"

static int rnd_off( void ) { int k = rndi( 0, 9 ); return k == 0 ? 0 : k < 3 ? -1 : rndi( 1, 31 ); }
static float rnd_float( int style )
{
    static const float special[] = { 0.0f, -0.0f, 1.0f, -1.0f, 2.5f, -2.5f, 2.5000002f, -2.5000002f, 2.4999998f, -2.4999998f, 88.3762626647949f, -88.3762626647949f,
        88.72283f, 88.72284f, -87.33655f, -103.97f, 9.0f, -9.0f, 16.635532f, -16.635532f, 1e-45f, -1e-45f, 1.17549435e-38f, -1.17549435e-38f, FLT_MAX, -FLT_MAX, 44.18813f, -44.18813f, 0.5f, 1e-7f, 1e7f, -1e7f };
    for (;;) {
        float v;
        switch ( style ) {
            case 0: v = (float)( rndn() * 2 ); break;
            case 1: v = (float)( (rndu() - 0.5) * 60 ); break;
            case 2: v = (float)( (rndu() - 0.5) * 240 ); break;
            case 3: v = special[ rndi( 0, (int)( sizeof special / sizeof *special ) - 1 ) ]; break;
            case 4: v = bitsf( (uint32_t) rnd() ); break;
            default: v = (float)( rndn() * pow( 10, rndi( -8, 4 ))); break;
        }
        if ( isfinite( v )) return v;
    }
}
/* is y an acceptable value of activation k at x? */
static bool act_ok( int k, float x, float y, double *ref )
{
    double v = act_f( k, x ); *ref = v;
    if ( v > FLT_MAX ) return y == INFINITY || y == FLT_MAX;
    if ( isnan( y )) return false;
    if ( !isfinite( y )) return k == A_EXPONENTIAL && v > FLT_MAX * (1 - 1e-6);
    return fabs( (double) y - v ) <= 1.5 * act_tol( k, x, v ) + 1e-44;
}
/* derivative of k expressed in its output a (a float), times g */
static bool der_ok( int k, float a, float g, float y, double *ref )
{
    double A = a, d, tol;
    switch ( k ) {
        case A_SOFTPLUS: d = -expm1( -A ); tol = 5e-7 * d; break;
        case A_SOFTSIGN: d = (1 - fabs( A )) * (1 - fabs( A )); tol = 8e-7 * d + 1e-14; break;
        case A_HARD_SIGMOID: d = A > 0 && A < 1 ? 0.2 : 0; tol = 3e-8; break;
        case A_EXPONENTIAL: d = A; tol = 0; break;
        case A_RELU: d = A > 0 ? 1 : 0; tol = 0; break;
        case A_SIGMOID: d = A * (1 - A); tol = 3e-7 * fabs( d ) + 1e-44; break;
        case A_TANH: d = 1 - A * A; tol = 1.3e-7; break;
        default: d = 1; tol = 0; break;
    }
    double v = d * g; *ref = v;
    if ( isnan( y )) return false;
    if ( fabs( v ) > FLT_MAX ) return isinf( y );
    return fabs( (double) y - v ) <= tol * fabs( (double) g ) + 1.3e-7 * fabs( v ) + 3e-45;
}

static void case_act( void )
{
    int k = rndi( 0, A_N - 1 ), style = rndi( 0, 6 );
    int n = chance( 0.05 ) ? rndi( 1, 5000 ) : rnd_size( 200 ), off = rnd_off();
    activation_func f = get_activation_func( act_names[k] );
    if ( !f ) { viol( "lookup", "no function for %s", act_names[k] ); return; }
    activation_derivative d = get_activation_derivative( f );
    if ( !d ) { viol( "lookup", "no derivative for %s", act_names[k] ); return; }
    const char *nm = get_activation_name( f );
    if ( !nm || strcmp( nm, act_names[k] )) { viol( "lookup", "the name of the function of %s is %s", act_names[k], nm ? nm : "NULL" ); return; }
    cur( "%s of %d values of style %d at offset %d", act_names[k], n, style, off );
    gbuf b = gb_new( n, off ); float *x = malloc( n * 4 );
    for ( int i = 0; i < n; i++ ) b.p[i] = x[i] = rnd_float( style == 6 ? rndi( 0, 5 ) : style );
    if ( k == A_SOFTMAX && chance( 0.1 )) for ( int i = 0; i < n; i++ ) b.p[i] = x[i] = x[0];
    scribble( rndi( 0, 2 ));
    f( n, b.p );
    if ( k == A_SOFTMAX ) {
        ed *z = calloc( n, sizeof(ed)), *a = calloc( n, sizeof(ed)); double s = 0;
        for ( int i = 0; i < n; i++ ) z[i] = ed_c( x[i] );
        act_ed( k, n, z, a );
        for ( int i = 0; i < n; i++ ) {
            if ( !( b.p[i] >= 0 ) || !ed_ok( a[i], b.p[i] )) { viol( "value", "softmax of %d values at offset %d: output %d is %.9g, expected %.9g", n, off, i, b.p[i], a[i].v ); break; }
            s += b.p[i];
        }
        if ( !( fabs( s - 1 ) <= (n + 8) * 2 * U24 )) viol( "value", "softmax of %d values at offset %d sums to %.9g", n, off, s );
        free( z ); free( a );
    } else for ( int i = 0; i < n; i++ ) {
        double r;
        if ( !act_ok( k, x[i], b.p[i], &r )) { viol( "value", "%s(%.9g) is %.9g, expected %.9g (element %d of %d at offset %d)", act_names[k], x[i], b.p[i], r, i, n, off ); break; }
    }
    if ( !gb_intact( &b )) viol( "overwrite", "%s of %d values at offset %d wrote beside them", act_names[k], n, off );
    stat_add( "activation_values", n );
    /* derivative at these outputs */
    int og = rnd_off(); gbuf g = gb_new( n, og ); float *g0 = malloc( n * 4 );
    if ( k != A_SOFTMAX ) {
        for ( int i = 0; i < n; i++ ) { if ( !isfinite( b.p[i] )) b.p[i] = 3e38f; g.p[i] = g0[i] = chance( 0.05 ) ? 0.0f : (float)( rndn() * pow( 10, rndi( -3, 3 ))); }
        float *as = malloc( n * 4 ); memcpy( as, b.p, n * 4 );
        gb_ro( &b, true );
        cur( "derivative of %s for %d values at offset %d, gradient at offset %d", act_names[k], n, off, og );
        scribble( rndi( 0, 2 ));
        d( n, b.p, g.p );
        for ( int i = 0; i < n; i++ ) { double r; if ( !der_ok( k, as[i], g0[i], g.p[i], &r )) {
            viol( "derivative", "derivative of %s at output %.9g times %.9g is %.9g, expected %.9g (element %d of %d at offsets %d, %d)", act_names[k], as[i], g0[i], g.p[i], r, i, n, off, og ); break; } }
        if ( memcmp( as, b.p, n * 4 ) || !gb_intact( &b )) viol( "input", "derivative of %s changed the activations", act_names[k] );
        if ( !gb_intact( &g )) viol( "overwrite", "derivative of %s of %d values at offset %d wrote beside them", act_names[k], n, og );
        free( as ); gb_ro( &b, false );
        stat_add( "derivative_values", n );
    }
    cover( h_hash( (int[]){ k, n, off, og, style }, 20, 1 ));
    if ( h_case % 501 == 0 ) sample( "%s(%.9g) = %.9g (n %d offset %d)", act_names[k], x[0], b.p[0], n, off );
    free( x ); free( g0 ); gb_free( &b ); gb_free( &g );
    h_evals++;
}

/* all floats, or every h_step-th: case c is the block of 2^20 floats number c */
static void case_sweep( uint32_t step )
{
    enum { B = 4096 };
    static float x[B], y[B+64], g[B+64], as[B]; float *p = (float*)(((uintptr_t) y + 127) & ~(uintptr_t) 127), *gp = (float*)(((uintptr_t) g + 127) & ~(uintptr_t) 127);
    uint64_t lo = (uint64_t) h_case << 20, hi = lo + (1 << 20), v = lo + ( step > 1 ? rnd() % step : 0 );
    cur( "sweep of floats with bits %llx ..", (unsigned long long) lo );
    while ( v < hi ) {
        int n = 0;
        for ( ; n < B && v < hi; v += step ) { float f = bitsf( (uint32_t) v ); if ( isfinite( f )) x[n++] = f; }
        if ( !n ) break;
        for ( int k = 0; k < A_N; k++ ) {
            if ( k == A_SOFTMAX ) continue;
            memcpy( p, x, n * 4 ); activation_func f = get_activation_func( act_names[k] ); f( n, p );
            for ( int i = 0; i < n; i++ ) { double r; if ( !act_ok( k, x[i], p[i], &r )) { viol( "value", "%s(%.9g) is %.9g, expected %.9g", act_names[k], x[i], p[i], r ); break; } }
            bool rng = true; (void) rng;
            int m = 0; for ( int i = 0; i < n; i++ ) if ( isfinite( p[i] )) { as[m] = p[m] = p[i]; gp[m] = 1; m++; }
            get_activation_derivative( f )( m, p, gp );
            for ( int i = 0; i < m; i++ ) { double r; if ( !der_ok( k, as[i], 1, gp[i], &r )) { viol( "derivative", "derivative of %s at output %.9g is %.9g, expected %.9g", act_names[k], as[i], gp[i], r ); break; } }
        }
        h_evals += n; stat_add( "floats_swept", n );
    }
    cover( lo );
}

static void case_lookup( void )
{
    static const char *bad[] = { "", "Sigmoid", "sigmoid ", " sigmoid", "tanh_act", "softma", "softmaxx", "relu6", "lin", "SOFTPLUS", "hard sigmoid", "hard_sigmoi", "(unknown)", "softplus_derivative" };
    activation_func fs[A_N];
    for ( int k = 0; k < A_N; k++ ) {
        fs[k] = get_activation_func( act_names[k] );
        char copy[32]; strcpy( copy, act_names[k] );
        if ( !fs[k] || get_activation_func( copy ) != fs[k] ) viol( "lookup", "function of %s", act_names[k] );
        if ( strcmp( get_activation_name( fs[k] ), act_names[k] )) viol( "lookup", "name of the function of %s is %s", act_names[k], get_activation_name( fs[k] ));
        if ( !get_activation_derivative( fs[k] )) viol( "lookup", "no derivative of %s", act_names[k] );
        for ( int l = 0; l < k; l++ ) if ( fs[l] == fs[k] ) viol( "lookup", "%s and %s are the same function", act_names[l], act_names[k] );
    }
    for ( size_t i = 0; i < sizeof bad / sizeof *bad; i++ ) { cur( "unknown name '%s'", bad[i] ); if ( get_activation_func( bad[i] )) viol( "lookup", "'%s' gives a function", bad[i] ); }
    if ( get_activation_derivative( (activation_func) case_act )) viol( "lookup", "a foreign function has a derivative" );
    for ( int k = 0; k < A_N; k++ ) if ( !strcmp( get_activation_name( (activation_func) case_act ), act_names[k] )) viol( "lookup", "a foreign function has the name of %s", act_names[k] );
    h_evals++; cover( 1 );
}

int main( int argc, char **argv )
{
    h_init( argc, argv ); heap_poison();
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c );
        if ( !strcmp( h_mode, "act" )) case_act();
        else if ( !strcmp( h_mode, "sweep" )) case_sweep( 257 );
        else if ( !strcmp( h_mode, "sweepall" )) case_sweep( 1 );
        else if ( !strcmp( h_mode, "lookup" )) case_lookup();
        else return 2;
    }
    h_finish();
    return 0;
}
