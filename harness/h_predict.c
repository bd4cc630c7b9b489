/* C01, C02: predictions against the double precision reference, in guarded memory */
#include "h.h"
#include "ref.h"
#include "neuralnet_predict_batch.h"
#include <omp.h>

typedef struct { gbuf w[MAXL], b[MAXL]; float *ow[MAXL], *ob[MAXL]; int L; } moved_t;
/* Move the parameters to read-only memory followed by canaries and a guard page */
static void move_params( neuralnet_t *nn, moved_t *m )
{
    m->L = nn->n_layers;
    for ( int l = 0; l < m->L; l++ ) {
        layer_t *y = nn->layer + l; size_t nw = (size_t) y->n_input * y->n_output, nb = y->n_output;
        m->ow[l] = y->weight; m->ob[l] = y->bias;
        m->w[l] = gb_new( nw, nw % 16 == 0 ? -1 : 0 ); memcpy( m->w[l].p, y->weight, nw * 4 ); y->weight = m->w[l].p;
        m->b[l] = gb_new( nb, nb % 16 == 0 ? -1 : 0 ); memcpy( m->b[l].p, y->bias, nb * 4 ); y->bias = m->b[l].p;
        gb_ro( &m->w[l], true ); gb_ro( &m->b[l], true );
    }
}
static void restore_params( neuralnet_t *nn, moved_t *m )
{
    for ( int l = 0; l < m->L; l++ ) {
        nn->layer[l].weight = m->ow[l]; nn->layer[l].bias = m->ob[l];
        gb_free( &m->w[l] ); gb_free( &m->b[l] );
    }
}
static int rnd_off( void ) { int k = rndi( 0, 9 ); return k == 0 ? 0 : k < 3 ? -1 : rndi( 1, 31 ); }

static void case_predict( void )
{
    spec_t s;
    int kind = rndi( 0, 99 );
    if ( kind < 4 ) { s.L = rndi( 1, 3 ); for ( int l = 0; l <= s.L; l++ ) s.sz[l] = rndi( 1, 900 ); for ( int l = 0; l < s.L; l++ ) s.act[l] = rndi( A_LINEAR, A_TANH ); spec_desc( &s ); }
    else if ( kind < 8 ) { s.L = rndi( 9, 16 ); for ( int l = 0; l <= s.L; l++ ) s.sz[l] = rndi( 1, 33 ); for ( int l = 0; l < s.L; l++ ) s.act[l] = rndi( A_LINEAR, A_TANH ); spec_desc( &s ); }
    else spec_random( &s, 5, 130, true );
    if ( kind >= 98 ) spec_wide( &s, 70000 );
    if ( kind >= 96 && kind < 98 ) spec_abyss( &s );
    bool vast = h_case % 1999 == 350 && !H_ASAN;       /* more than 2^24 weights in a layer */
    if ( vast ) { s.L = rndi( 1, 2 ); s.sz[0] = rndi( 4100, 4400 ); s.sz[1] = rndi( 4100, 4400 ); s.sz[2] = rndi( 1, 40 ); for ( int l = 0; l < s.L; l++ ) s.act[l] = A_LINEAR; spec_desc( &s ); stat_add( "layers_beyond_2_24_weights", 1 ); }
    bool whole = vast || chance( kind >= 98 ? 0.6 : 0.06 );
    if ( whole ) { for ( int l = 0; l < s.L; l++ ) s.act[l] = chance( 0.7 ) ? A_LINEAR : A_RELU; spec_desc( &s ); }
    cur( "predict %s", s.desc );
    neuralnet_t *nn = spec_create( &s );
    if ( !nn ) { viol( "create", "neuralnet_create failed for %s", s.desc ); return; }
    fill_params( nn );
    const int ni = s.sz[0], no = s.sz[s.L];
    float *x = malloc( ni * sizeof(float) ); fill_input( x, ni );
    if ( whole ) { fill_whole( nn, x, ni ); stat_add( "networks_of_whole_numbers", 1 ); }
    else if ( fill_wild( nn, x, ni )) stat_add( "networks_with_large_numbers", 1 );
    float **snap = params_snapshot( nn );
    moved_t mv; bool moved = chance( 0.7 );
    if ( moved ) move_params( nn, &mv );
    rnet r; rnet_init( &r, nn, s.act );
    const ed *ref = rnet_forward( &r, x );
    bool fin = rnet_finite( &r ), usable = fin && ed_usable( ref, no );
    stat_add( usable ? "outputs_compared" : "outputs_without_tight_bound", no );
    float *first = NULL;
    for ( int rep = 0; rep < 3; rep++ ) {
        int oi = rnd_off(), oo = rnd_off();
        gbuf in = gb_new( ni, oi ), out = gb_new( no, oo );
        memcpy( in.p, x, ni * sizeof(float) ); gb_ro( &in, true );
        cur( "predict %s input offset %d output offset %d", s.desc, oi, oo );
        scribble( rep ); neuralnet_predict( nn, in.p, out.p );
        for ( int i = 0; i < no; i++ ) if ( fbits( out.p[i] ) == NANPAT ) { viol( "unwritten", "output %d of %d was not written (offset %d)", i, no, oo ); break; }
        if ( fin ) for ( int i = 0; i < no; i++ ) if ( !isfinite( out.p[i] )) { viol( "value", "output %d of %d is %g, but nothing overflows (expected %.9g +- %.2g)", i, no, out.p[i], ref[i].v, ref[i].e ); break; }
        if ( usable ) for ( int i = 0; i < no; i++ ) if ( !ed_ok( ref[i], out.p[i] )) {
            viol( "value", "output %d of %d is %.9g, expected %.9g +- %.2g (input offset %d, output offset %d)", i, no, out.p[i], ref[i].v, ref[i].e, oi, oo ); break; }
        if ( !gb_intact( &out )) viol( "overwrite", "memory beside the %d outputs was written (offset %d)", no, oo );
        if ( !gb_intact( &in ) || memcmp( in.p, x, ni * sizeof(float) )) viol( "input", "the input was modified" );
        /* the same call again, with another stack */
        float *a = malloc( no * sizeof(float) ); memcpy( a, out.p, no * sizeof(float) );
        gb_poison( &out ); scribble( rep + 1 ); neuralnet_predict( nn, in.p, out.p );
        if ( memcmp( a, out.p, no * sizeof(float) )) viol( "repeat", "two identical calls gave different bits" );
        if ( !first ) { first = malloc( no * sizeof(float) ); memcpy( first, a, no * sizeof(float) ); }
        free( a );
        cover( h_hash( (int[]){ oi, oo }, 8, spec_hash( &s )));
        gb_free( &in ); gb_free( &out );
    }
    if ( moved ) {
        for ( int l = 0; l < s.L; l++ ) if ( !gb_intact( &mv.w[l] ) || !gb_intact( &mv.b[l] )) viol( "params", "memory around the parameters was written" );
    }
    if ( !params_same( nn, snap )) viol( "params", "prediction changed the parameters" );
    if ( moved ) restore_params( nn, &mv );
    if ( h_case % 97 == 0 ) sample( "%s out[0]=%.7g expected %.7g +- %.1e", s.desc, first[0], ref[0].v, ref[0].e );
    free( first ); free( x ); rnet_free( &r ); params_free( snap, s.L ); neuralnet_free( nn );
    h_evals++;
}

static void case_batch( void )
{
    spec_t s; int n;
    int kind = rndi( 0, 99 );
    if ( kind < 5 ) {            /* wider than the work memory of the BLAS build */
        s.L = rndi( 1, 3 ); for ( int l = 0; l <= s.L; l++ ) s.sz[l] = rndi( 1, 6 );
        s.sz[ rndi( 0, s.L ) ] = rndi( 64 * 1024 - 20, 72000 );
        for ( int l = 0; l < s.L; l++ ) s.act[l] = rndi( A_LINEAR, A_TANH );
        spec_desc( &s ); n = rndi( 1, 4 );
    } else if ( kind < 14 ) {    /* work memory has to be split */
        spec_random( &s, 4, 90, true );
        int tot = 0; for ( int l = 1; l <= s.L; l++ ) tot += s.sz[l];
        n = 65536 / tot * rndi( 1, 3 ) + rndi( -2, 3 ); if ( n < 1 ) n = 1; if ( n > 6000 ) n = rndi( 5000, 6000 );
    } else if ( kind < 17 ) {    /* very many samples, at and around powers of two */
        spec_random( &s, 3, 4, true );
        n = chance( 0.8 ) ? ( 1 << rndi( 9, 17 )) + rndi( -2, 2 ) : rndi( 3000, 140000 );
    } else {
        spec_random( &s, 4, 90, true ); if ( kind == 17 ) spec_abyss( &s );
        n = chance( 0.08 ) ? 0 : chance( 0.15 ) ? 1 : chance( 0.8 ) ? rndi( 2, 40 ) : rndi( 41, 300 );
    }
    bool whole = chance( kind < 5 ? 0.5 : 0.08 );
    if ( whole ) { for ( int l = 0; l < s.L; l++ ) s.act[l] = chance( 0.7 ) ? A_LINEAR : A_RELU; spec_desc( &s ); }
    neuralnet_t *nn = spec_create( &s );
    if ( !nn ) { viol( "create", "neuralnet_create failed for %s", s.desc ); return; }
    fill_params( nn );
    const int ni = s.sz[0], no = s.sz[s.L];
    int threads = chance( 0.05 ) ? rndi( 9, 70 ) : rndi( 1, 8 ); omp_set_num_threads( threads );
    int oi = rnd_off(), oo = rnd_off();
    cur( "batch of %d, %s input offset %d output offset %d threads %d", n, s.desc, oi, oo, threads );
    gbuf in = gb_new( (size_t) ni * n, oi ), out = gb_new( (size_t) no * n, oo );
    for ( int i = 0; i < n; i++ ) fill_input( in.p + (size_t) i * ni, ni );
    if ( whole ) { fill_whole( nn, in.p, (size_t) ni * n ); stat_add( "networks_of_whole_numbers", 1 ); }
    else if ( fill_wild( nn, in.p, (size_t) ni * n )) stat_add( "networks_with_large_numbers", 1 );
    float **snap = params_snapshot( nn );
    gb_ro( &in, true );
    scribble( rndi( 0, 2 ));
    neuralnet_predict_batch( nn, n, in.p, out.p );
    rnet r; rnet_init( &r, nn, s.act );
    gbuf one = gb_new( no, 0 );
    size_t work = r.np * (size_t) n; int stride = work > 20000000 ? (int)( work / 20000000 ) + 1 : 1;
    bool bad = false;
    for ( int i = 0; i < n && !bad; i++ ) {
        float *o = out.p + (size_t) i * no;
        for ( int j = 0; j < no; j++ ) if ( fbits( o[j] ) == NANPAT ) { viol( "unwritten", "row %d of %d, output %d was not written", i, n, j ); bad = true; break; }
        if ( bad || ( i % stride && i != n-1 ) ) continue;
        const ed *ref = rnet_forward( &r, in.p + (size_t) i * ni );
        bool fin = rnet_finite( &r );
        if ( fin ) for ( int j = 0; j < no; j++ ) if ( !isfinite( o[j] )) { viol( "value", "row %d of %d, output %d is %g, but nothing overflows (expected %.9g +- %.2g)", i, n, j, o[j], ref[j].v, ref[j].e ); bad = true; break; }
        if ( bad ) break;
        if ( !fin || !ed_usable( ref, no )) { stat_add( "rows_without_tight_bound", 1 ); continue; }
        stat_add( "rows_compared", 1 );
        neuralnet_predict( nn, in.p + (size_t) i * ni, one.p );
        for ( int j = 0; j < no; j++ ) if ( !ed_ok( ref[j], o[j] ) || !ed_ok( ref[j], one.p[j] )) {
            viol( "value", "row %d of %d, output %d is %.9g in the batch, %.9g alone, expected %.9g +- %.2g", i, n, j, o[j], one.p[j], ref[j].v, ref[j].e ); bad = true; break; }
    }
    if ( !gb_intact( &out )) viol( "overwrite", "memory beside the %d x %d outputs was written", n, no );
    if ( !gb_intact( &in )) viol( "input", "input was modified" );
    if ( !params_same( nn, snap )) viol( "params", "batch prediction changed the parameters" );
    cover( h_hash( (int[]){ oi, oo, n, threads }, 16, spec_hash( &s )));
    if ( h_case % 61 == 0 ) sample( "%d rows of %s with %d threads, output offset %d", n, s.desc, threads, oo );
    gb_free( &one ); gb_free( &in ); gb_free( &out ); rnet_free( &r ); params_free( snap, s.L ); neuralnet_free( nn );
    h_evals++;
}

/* more numbers than an int can count */
static void case_big( void )
{
    bool in = h_case % 2 == 0;
    spec_t s = { .L = 1, .sz = { in ? 60000 : 1, in ? 1 : 60000 }, .act = { A_LINEAR } }; spec_desc( &s );
    int n = 36500, ni = s.sz[0], no = s.sz[1];
    neuralnet_t *nn = spec_create( &s ); fill_params( nn );
    bigmap X = big_new( (size_t) n * ni, in ? 4099 : 67 ), Y = { 0 };
    float *y;
    if ( in ) y = calloc( (size_t) n * no, 4 ); else { Y = big_new( (size_t) n * no, 4099 ); y = Y.p; }
    for ( size_t i = 0; i < X.period; i++ ) X.p[i] = (float) rndn();
    cur( "predict_batch of %s with %d samples", s.desc, n );
    omp_set_num_threads( in ? 8 : 1 );
    neuralnet_predict_batch( nn, n, X.p, y );
    for ( int i = n - 1; i > n - 1000; i -= in ? 3 : 200 ) {
        if ( !in && (size_t)( n - i ) * no >= Y.period - no ) break;       /* only the last rows still stand in the repeating memory */
        for ( int j = 0; j < no; j++ ) {
            double z = nn->layer[0].bias[j], S = fabs( z );
            for ( int k = 0; k < ni; k++ ) { double t = (double) X.p[(size_t) i * ni + k] * nn->layer[0].weight[(size_t) k * no + j]; z += t; S += fabs( t ); }
            if ( !( fabs( y[(size_t) i * no + j] - z ) <= 1e-5 * S + 1e-30 )) { viol( "big", "row %d output %d of %d samples is %.9g instead of %.9g", i, j, n, y[(size_t) i * no + j], z ); i = 0; break; }
        }
    }
    stat_add( "numbers_in_data_sets", (uint64_t) n * ( ni + no )); cover( in + 99 ); h_evals++;
    big_free( &X ); if ( in ) free( y ); else big_free( &Y ); neuralnet_free( nn );
}

int main( int argc, char **argv )
{
    h_init( argc, argv ); heap_poison();
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c );
        if ( !strcmp( h_mode, "predict" )) case_predict();
        else if ( !strcmp( h_mode, "batch" )) case_batch();
        else if ( !strcmp( h_mode, "big" )) case_big();
        else return 2;
    }
    h_finish();
    return 0;
}
