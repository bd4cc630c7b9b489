/* C24: the vector and matrix kernels, element by element, in guarded memory. C22: parameters. */
#include "h.h"
#include "ref.h"
#include "matrix_operations.h"
static int al_off( size_t n ) { return chance( 0.4 ) && n % 16 == 0 ? -1 : 16 * rndi( 0, 2 ); }   /* aligned for every build */
static int any_off( void ) { int k = rndi( 0, 9 ); return k < 3 ? -1 : k == 3 ? 0 : rndi( 1, 31 ); }
static int style;
static float val( void )
{
    switch ( style ) {
        case 0: return (float) rndn();
        case 1: return (float)( rndn() * exp( rndn() * 12 ));
        case 2: return chance( 0.3 ) ? 0.0f : chance( 0.3 ) ? 1.0f : chance( 0.2 ) ? -1.0f : chance( 0.1 ) ? -0.0f : (float) rndn();
        case 3: return bitsf(( rnd() & 0x80000000u ) | ( rnd() % 0x00800000u ));                 /* denormal */
        default: return (float)( rndn() * 1e-3 + 1000 );
    }
}
static gbuf mk( size_t n, int off ) { gbuf g = gb_new( n, off ); for ( size_t i = 0; i < n; i++ ) g.p[i] = val(); return g; }
static float *copy( const gbuf *g ) { float *c = malloc( g->n * 4 + 4 ); if ( g->n ) memcpy( c, g->p, g->n * 4 ); return c; }
static const char *kn;
static void chk( int i, float got, double ref, double mag, int terms )
{
    if ( fabs( ref ) > 3e38 || mag > 3e38 ) return;       /* may overflow on the way */
    double tol = ( terms + 1 ) * 1.5 * U24 * mag + ( terms + 1 ) * 2e-45;
    if ( !( fabs( got - ref ) <= tol )) viol( kn, "element %d is %.9g, expected %.9g +- %.2g", i, got, ref, tol );
}
static void intact( gbuf *out, gbuf *in, const float *inwas, const char *what )
{
    if ( out && !gb_intact( out )) viol( kn, "memory beside the result was written" );
    if ( in && ( !gb_intact( in ) || ( in->n && memcmp( in->p, inwas, in->n * 4 )))) viol( kn, "the operand %s was changed", what );
}
enum { K_MV, K_OUTER, K_VM, K_ACC, K_ACCU, K_SCALE, K_DIV, K_SAXPY, K_SAXPBY, K_SQ, K_N };
static const char *names[K_N] = { "matrix_vector_multiply", "vector_vector_outer", "vector_matrix_multiply", "vector_accumulate", "vector_accumulate_unaligned", "vector_scale", "vector_divide_by_scalar", "vector_saxpy", "vector_saxpby", "vector_square_elements" };
static int ksize( void ) { int k = rndi( 0, 9 ); return k < 6 ? rndi( 0, 70 ) : k < 9 ? rnd_size( 300 ) : 0; }
static void case_kernel( long c )
{
    int k = rndi( 0, K_N - 1 ); kn = names[k]; style = rndi( 0, 4 );
    if ( k <= K_VM ) {
        int a = rndi( 0, 19 ) ? rnd_size( 80 ) : rnd_size( 400 ), b = rndi( 0, 19 ) ? rnd_size( 80 ) : rnd_size( 400 );
        if ( chance( 0.008 )) { int big = chance( 0.5 ) ? rndi( 1000, 32760 ) : rndi( 32760, 140000 ), small = rndi( 1, 24 ); if ( chance( 0.5 )) { a = big; b = small; } else { a = small; b = big; } }
        else if ( c % 2500 == 77 && !H_ASAN ) { a = rndi( 4100, 4800 ); b = rndi( 4100, 4800 ); stat_add( "matrices_beyond_2_24", 1 ); }
        if ( k == K_MV ) {           /* (a x b) b -> a */
            int o[3] = { any_off(), any_off(), any_off() };
            cur( "%s %d x %d style %d offsets %d %d %d", kn, a, b, style, o[0], o[1], o[2] );
            gbuf M = mk( (size_t) a * b, o[0] ), v = mk( b, o[1] ), y = gb_new( a, o[2] );
            memset( y.p, 0, a * 4 ); float *m0 = copy( &M ), *v0 = copy( &v ); gb_ro( &M, true ); gb_ro( &v, true );
            scribble( c % 3 ); matrix_vector_multiply( a, b, M.p, v.p, y.p );
            for ( int i = 0; i < a; i++ ) { double r = 0, s = 0; for ( int j = 0; j < b; j++ ) { double t = (double) m0[(size_t) i * b + j] * v0[j]; r += t; s += fabs( t ); } chk( i, y.p[i], r, s, b ); }
            intact( &y, &M, m0, "matrix" ); intact( NULL, &v, v0, "vector" );
            free( m0 ); free( v0 ); gb_free( &M ); gb_free( &v ); gb_free( &y );
        } else if ( k == K_OUTER ) {
            int o[3] = { any_off(), any_off(), any_off() };
            cur( "%s %d x %d style %d offsets %d %d %d", kn, a, b, style, o[0], o[1], o[2] );
            gbuf M = gb_new( (size_t) a * b, o[0] ), x = mk( a, o[1] ), y = mk( b, o[2] );
            memset( M.p, 0, (size_t) a * b * 4 ); float *x0 = copy( &x ), *y0 = copy( &y ); gb_ro( &x, true ); gb_ro( &y, true );
            scribble( c % 3 ); vector_vector_outer( a, b, x.p, y.p, M.p );
            for ( int i = 0; i < a; i++ ) for ( int j = 0; j < b; j++ ) { double t = (double) x0[i] * y0[j]; chk( i * b + j, M.p[(size_t) i * b + j], t, fabs( t ), 1 ); }
            intact( &M, &x, x0, "x" ); intact( NULL, &y, y0, "y" );
            free( x0 ); free( y0 ); gb_free( &M ); gb_free( &x ); gb_free( &y );
        } else {
            int o[4] = { al_off( (size_t) a * b ), al_off( b ), any_off(), al_off( b ) };
            cur( "%s %d -> %d style %d offsets %d %d %d %d", kn, a, b, style, o[0], o[1], o[2], o[3] );
            gbuf W = mk( (size_t) a * b, o[0] ), B = mk( b, o[1] ), x = mk( a, o[2] ), y = gb_new( b, o[3] );
            float *w0 = copy( &W ), *b0 = copy( &B ), *x0 = copy( &x ); gb_ro( &W, true ); gb_ro( &B, true ); gb_ro( &x, true );
            scribble( c % 3 ); vector_matrix_multiply( a, b, W.p, B.p, x.p, y.p );
            for ( int j = 0; j < b; j++ ) { double r = b0[j], s = fabs( r ); for ( int i = 0; i < a; i++ ) { double t = (double) x0[i] * w0[(size_t) i * b + j]; r += t; s += fabs( t ); } chk( j, y.p[j], r, s, a ); }
            intact( &y, &W, w0, "weight" ); intact( NULL, &B, b0, "bias" ); intact( NULL, &x, x0, "input" );
            free( w0 ); free( b0 ); free( x0 ); gb_free( &W ); gb_free( &B ); gb_free( &x ); gb_free( &y );
        }
        cover( h_hash( (int[]){ k, a, b }, 12, 0 ));
    } else {
        int n = ksize(); if ( chance( 0.01 )) n = rndi( 1000, 140000 ); else if ( c % 5000 == 78 && !H_ASAN ) { n = rndi( 16777217, 18000000 ); stat_add( "vectors_beyond_2_24", 1 ); }
        bool un = k == K_ACCU; int o0 = un ? any_off() : al_off( n ), o1 = un ? any_off() : al_off( n );
        if ( k == K_SQ && n % 16 ) o0 = 16 * rndi( 0, 2 );
        float s = style == 3 ? (float) rndn() : val(), t = style == 3 ? (float) rndn() : val();
        if ( chance( 0.15 )) s = 0; if ( chance( 0.1 )) s = 1; if ( chance( 0.1 )) t = 0; if ( chance( 0.1 )) t = 1;
        if ( k == K_DIV && fabsf( s ) < 1e-6f ) s = 3;
        cur( "%s n %d style %d offsets %d %d scalars %g %g", kn, n, style, o0, o1, s, t );
        gbuf a = mk( n, o0 ), b = mk( n, o1 ); float *a0 = copy( &a ), *b0 = copy( &b ); gb_ro( &b, true );
        bool alias = k == K_SQ && chance( 0.3 );
        scribble( c % 3 );
        switch ( k ) {
            case K_ACC: vector_accumulate( n, a.p, b.p ); break;
            case K_ACCU: vector_accumulate_unaligned( n, a.p, b.p ); break;
            case K_SCALE: vector_scale( n, a.p, s ); break;
            case K_DIV: vector_divide_by_scalar( n, a.p, s ); break;
            case K_SAXPY: vector_saxpy( n, a.p, s, b.p ); break;
            case K_SAXPBY: vector_saxpby( n, a.p, s, b.p, t ); break;
            default: vector_square_elements( n, a.p, alias ? a.p : b.p ); break;
        }
        for ( int i = 0; i < n; i++ ) {
            double x = a0[i], y = b0[i], r, m;
            switch ( k ) {
                case K_ACC: case K_ACCU: r = x + y; m = fabs( x ) + fabs( y ); break;
                case K_SCALE: r = x * s; m = fabs( r ); break;
                case K_DIV: r = x / s; m = fabs( r ); break;
                case K_SAXPY: r = x + s * y; m = fabs( x ) + fabs( s * y ); break;
                case K_SAXPBY: r = (double) t * x + s * y; m = fabs( (double) t * x ) + fabs( s * y ); break;
                default: r = alias ? x * x : y * y; m = fabs( r ); break;
            }
            if ( fabs( r ) > 3e38 || m > 3e38 ) continue;
            chk( i, a.p[i], r, m, 2 );
        }
        intact( &a, &b, b0, "b" );
        cover( h_hash( (int[]){ k, n, o0, o1 }, 16, 0 ));
        free( a0 ); free( b0 ); gb_free( &a ); gb_free( &b );
    }
    stat_add( kn, 1 );
    if ( c % 997 == 0 ) sample( "%s", h_cur );
    h_evals++;
}
/* a long history of updates and reads with the same buffers; whole numbers, so that every sum is exact */
static void many_updates( neuralnet_t *nn, const spec_t *s, size_t np, float *out )
{
    gbuf d[2] = { gb_new( np, any_off()), gb_new( np, any_off()) }; int *want = malloc( np * sizeof *want ); size_t k = 0;
    for ( int l = 0; l < s->L; l++ ) {
        for ( int i = 0; i < s->sz[l+1]; i++ ) nn->layer[l].bias[i] = want[k++] = rndi( -1000, 1000 );
        for ( int i = 0; i < s->sz[l] * s->sz[l+1]; i++ ) nn->layer[l].weight[i] = want[k++] = rndi( -1000, 1000 );
    }
    for ( int b = 0; b < 2; b++ ) for ( size_t i = 0; i < np; i++ ) d[b].p[i] = rndi( -4, 4 );
    int n = (int) exp( rndu() * log( 2500 )) + 1, readevery = chance( 0.5 ) ? rndi( 1, 20 ) : n, mix = chance( 0.5 );
    for ( int r = 0; r < n; r++ ) {
        int b = mix && chance( 0.3 );
        for ( size_t i = 0; i < np; i++ ) want[i] += (int) d[b].p[i];
        neuralnet_update( nn, d[b].p );
        if ( r % readevery == readevery - 1 || r == n - 1 ) {
            for ( size_t i = 0; i < np; i++ ) out[i] = 0.5f;
            neuralnet_get_parameters( nn, out );
            for ( size_t i = 0; i < np; i++ ) if ( out[i] != want[i] ) { viol( "history", "after %d updates parameter %zu of %zu is %.9g instead of %d", r + 1, i, np, out[i], want[i] ); goto out; }
        }
    }
    stat_add( "updates_in_long_histories", n );
out:
    if ( !gb_intact( &d[0] ) || !gb_intact( &d[1] )) viol( "overwrite", "updating wrote beside the delta" );
    gb_free( &d[0] ); gb_free( &d[1] ); free( want );
}
/* C22 */
static void case_params( long c )
{
    spec_t s; memset( &s, 0, sizeof s );
    if ( chance( 0.05 )) { s.L = rndi( 9, 16 ); for ( int l = 0; l <= s.L; l++ ) s.sz[l] = rndi( 1, 33 ); spec_desc( &s ); }
    else spec_random( &s, 5, chance( 0.05 ) ? 400 : 90, true );
    if ( chance( 0.03 )) spec_wide( &s, 70000 ); else if ( chance( 0.02 )) spec_abyss( &s );
    if ( c % 1801 == 200 && !H_ASAN ) { s.L = rndi( 1, 2 ); s.sz[0] = rndi( 4100, 4300 ); s.sz[1] = rndi( 4100, 4300 ); s.sz[2] = rndi( 1, 9 ); s.act[0] = s.act[1] = A_RELU; spec_desc( &s ); stat_add( "networks_beyond_2_24_parameters", 1 ); }
    neuralnet_t *nn = spec_create( &s ); if ( !nn ) { viol( "create", "cannot create %s", s.desc ); return; }
    style = rndi( 0, 4 );
    size_t np = 0; for ( int l = 0; l < s.L; l++ ) np += ( (size_t) s.sz[l] + 1 ) * s.sz[l+1];
    /* parameters in guarded memory of their own: nothing beside them may change, what is only read is read-only */
    gbuf w[MAXL], b[MAXL]; float *ow[MAXL], *ob[MAXL];
    for ( int l = 0; l < s.L; l++ ) {
        size_t nw = (size_t) s.sz[l] * s.sz[l+1]; ow[l] = nn->layer[l].weight; ob[l] = nn->layer[l].bias;
        w[l] = mk( nw, nw % 16 ? 0 : -1 ); b[l] = mk( s.sz[l+1], s.sz[l+1] % 16 ? 0 : -1 );
        nn->layer[l].weight = w[l].p; nn->layer[l].bias = b[l].p;
        if ( style == 1 ) for ( size_t i = 0; i < nw; i += 3 ) w[l].p[i] = bitsf( rnd() );      /* any bits are read as they are */
    }
    int oo = any_off(), od = any_off();
    cur( "%s parameters read to offset %d, updated from offset %d, style %d", s.desc, oo, od, style );
    if ( neuralnet_total_n_parameters( nn ) != np ) viol( "count", "%u parameters instead of %zu", neuralnet_total_n_parameters( nn ), np );
    gbuf p = gb_new( np, oo ), q = gb_new( np, any_off() ), d = mk( np, od );
    for ( int l = 0; l < s.L; l++ ) { gb_ro( &w[l], true ); gb_ro( &b[l], true ); }
    scribble( c % 3 ); neuralnet_get_parameters( nn, p.p );
    for ( int l = 0; l < s.L; l++ ) { gb_ro( &w[l], false ); gb_ro( &b[l], false ); }
    if ( !gb_intact( &p )) viol( "overwrite", "reading the parameters wrote beside the %zu values", np );
    size_t k = 0;
    for ( int l = 0; l < s.L; l++ ) {
        for ( int i = 0; i < s.sz[l+1]; i++, k++ ) if ( fbits( p.p[k] ) != fbits( b[l].p[i] )) { viol( "read", "value %zu of %zu is not bias %d of layer %d", k, np, i, l ); goto out; }
        for ( int i = 0; i < s.sz[l] * s.sz[l+1]; i++, k++ ) if ( fbits( p.p[k] ) != fbits( w[l].p[i] )) { viol( "read", "value %zu of %zu is not weight %d of layer %d", k, np, i, l ); goto out; }
    }
    { float *d0 = copy( &d ); gb_ro( &d, true );
    scribble( c % 3 ); neuralnet_update( nn, d.p );
    for ( int l = 0; l < s.L; l++ ) if ( !gb_intact( &w[l] ) || !gb_intact( &b[l] )) viol( "overwrite", "updating wrote beside the parameters of layer %d", l );
    neuralnet_get_parameters( nn, q.p );
    for ( k = 0; k < np; k++ ) {
        double x = p.p[k], y = d0[k], r = x + y;
        if ( !isfinite( p.p[k] ) || fabs( r ) > 3e38 ) continue;
        if ( !( fabs( q.p[k] - r ) <= 1.01 * U24 * fabs( r ) + 2e-45 )) { viol( "update", "parameter %zu of %zu: %.9g + %.9g gave %.9g", k, np, x, y, q.p[k] ); break; }
    }
    for ( int l = 0; l < s.L; l++ ) if ( nn->layer[l].weight != w[l].p || nn->layer[l].bias != b[l].p || nn->layer[l].n_input != s.sz[l] || nn->layer[l].n_output != s.sz[l+1] ) viol( "layer", "the layer's own description changed" );
    intact( NULL, &d, d0, "delta" ); free( d0 ); }
    if ( np <= 4000 && chance( 0.02 )) many_updates( nn, &s, np, q.p );
    stat_add( "parameters", np );
out:
    for ( int l = 0; l < s.L; l++ ) { nn->layer[l].weight = ow[l]; nn->layer[l].bias = ob[l]; gb_free( &w[l] ); gb_free( &b[l] ); }
    gb_free( &p ); gb_free( &q ); gb_free( &d ); neuralnet_free( nn );
    cover( h_hash( (int[]){ oo, od }, 8, spec_hash( &s )));
    if ( c % 997 == 0 ) sample( "%s", h_cur );
    h_evals++;
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_quiet(); heap_poison();
    for ( long c = h_from; c < h_to; c++ ) { h_begin( c ); if ( !strcmp( h_mode, "kernel" )) case_kernel( c ); else case_params( c ); }
    h_finish(); return 0;
}
