/* C03: backpropagation against a double precision derivation (itself checked by finite differences) */
#include "h.h"
#include "ref.h"
#include "loss.h"

static double dforward_loss( const spec_t *s, float **prm, int lyr, size_t idx, double delta, const float *x, const float *t, int loss )
{
    static double a[2][4000]; int cur_ = 0;
    for ( int i = 0; i < s->sz[0]; i++ ) a[0][i] = x[i];
    for ( int l = 0; l < s->L; l++ ) {
        int n = s->sz[l], m = s->sz[l+1]; double *in = a[cur_], *out = a[cur_^1];
        for ( int j = 0; j < m; j++ ) {
            double z = prm[2*l+1][j] + ( l == lyr && idx == (size_t) j ? delta : 0 );
            for ( int i = 0; i < n; i++ ) z += in[i] * ( prm[2*l][(size_t) i*m+j] + ( l == lyr && idx == (size_t) m + (size_t) i*m+j ? delta : 0 ));
            out[j] = z;
        }
        if ( s->act[l] == A_SOFTMAX ) {
            double mx = -INFINITY, sum = 0; for ( int j = 0; j < m; j++ ) mx = fmax( mx, out[j] );
            for ( int j = 0; j < m; j++ ) sum += out[j] = exp( out[j] - mx );
            for ( int j = 0; j < m; j++ ) out[j] /= sum;
        } else for ( int j = 0; j < m; j++ ) out[j] = act_f( s->act[l], out[j] );
        cur_ ^= 1;
    }
    double td[4000]; for ( int i = 0; i < s->sz[s->L]; i++ ) td[i] = t[i];
    return loss_val( loss, s->sz[s->L], a[cur_], td );
}

static void case_grad( void )
{
    spec_t s; int loss;
    if ( chance( 0.04 )) { s.L = rndi( 1, 3 ); for ( int l = 0; l <= s.L; l++ ) s.sz[l] = rndi( 1, 300 ); for ( int l = 0; l < s.L; l++ ) do s.act[l] = rndi( A_LINEAR, A_TANH ); while ( l < s.L-1 && s.act[l] == A_SOFTMAX ); spec_desc( &s ); }
    else if ( chance( 0.02 )) { spec_random( &s, 2, 20, false ); spec_abyss( &s ); }
    else if ( chance( 0.05 )) { s.L = rndi( 7, 14 ); for ( int l = 0; l <= s.L; l++ ) s.sz[l] = rndi( 1, 24 ); for ( int l = 0; l < s.L; l++ ) do s.act[l] = rndi( A_LINEAR, A_TANH ); while ( l < s.L-1 && s.act[l] == A_SOFTMAX ); spec_desc( &s ); }
    else spec_random( &s, 5, 90, false );
    if ( chance( 0.01 )) spec_wide( &s, 70000 );
    if ( h_case % 2501 == 700 && !H_ASAN ) { s.act[0] = rndi( A_LINEAR, A_TANH ); if ( s.act[0] == A_SOFTMAX ) s.act[0] = A_RELU; s.act[1] = s.act[s.L-1]; s.L = 2; s.sz[0] = rndi( 4100, 4300 ); s.sz[1] = rndi( 4100, 4300 ); s.sz[2] = rndi( 1, 9 ); stat_add( "gradients_beyond_2_24_entries", 1 ); }
    int *oa = &s.act[s.L-1];
    loss = rndi( 0, L_N - 1 );
    if ( *oa == A_SOFTMAX ) loss = L_CCE;
    else if ( loss == L_CCE ) { *oa = A_SOFTMAX; }
    else if ( loss == L_BCE ) { *oa = A_SIGMOID; }
    spec_desc( &s );
    cur( "gradient of %s for %s", loss_names[loss], s.desc );
    neuralnet_t *nn = spec_create( &s );
    if ( !nn ) { viol( "create", "neuralnet_create failed" ); return; }
    fill_params( nn );
    const char *shortname = loss == L_MSE ? "mse" : loss == L_MAE ? "mae" : loss == L_MAPE ? "mape" : loss_names[loss];
    if ( chance( 0.15 )) neuralnet_set_loss( nn, "mse" );       /* setting it anew must undo what was set before */
    else if ( chance( 0.15 )) neuralnet_set_loss( nn, *oa == A_SIGMOID ? "binary_crossentropy" : *oa == A_SOFTMAX ? "categorical_crossentropy" : "mae" );
    neuralnet_set_loss( nn, chance( 0.5 ) ? loss_names[loss] : shortname );
    if ( !nn->loss ) { viol( "loss", "loss %s not found", loss_names[loss] ); neuralnet_free( nn ); return; }
    float **snap = params_snapshot( nn );
    rnet r; rnet_init( &r, nn, s.act );
    const int ni = s.sz[0], no = s.sz[s.L];
    int oi = chance( 0.3 ) ? 0 : rndi( -1, 31 ), ot = chance( 0.3 ) ? 0 : rndi( -1, 31 );
    int og = r.np % 16 == 0 && chance( 0.5 ) ? -1 : 16 * rndi( 0, 2 );
    gbuf x = gb_new( ni, oi ), t = gb_new( no, ot ), g = gb_new( r.np, og );
    fill_input( x.p, ni ); fill_target( t.p, no, loss );
    float *xs = malloc( ni * 4 ), *ts = malloc( no * 4 ); memcpy( xs, x.p, ni * 4 ); memcpy( ts, t.p, no * 4 );
    const ed *out = rnet_forward( &r, x.p );
    if ( chance( 0.1 ) && loss == L_MAE && ed_usable( out, no )) { neuralnet_predict( nn, x.p, t.p ); memcpy( ts, t.p, no * 4 ); }  /* exactly met target: either sign */
    gb_ro( &x, true ); gb_ro( &t, true );
    cur( "gradient of %s for %s, input offset %d target offset %d grad offset %d", loss_names[loss], s.desc, oi, ot, og );
    scribble( rndi( 0, 2 ));
    neuralnet_backpropagation( nn, x.p, t.p, g.p );
    bool usable = ed_usable( out, no );
    for ( size_t i = 0; i < r.np; i++ ) if ( fbits( g.p[i] ) == NANPAT ) { viol( "unwritten", "gradient entry %zu of %zu was not written", i, r.np ); break; }
    if ( usable ) {
        ed *ref = calloc( r.np, sizeof(ed) );
        rnet_backward( &r, loss, t.p, ref );
        double sc = 0; for ( size_t i = 0; i < r.np; i++ ) if ( fabs( ref[i].v ) > sc ) sc = fabs( ref[i].v );
        size_t tight = 0;
        for ( size_t i = 0; i < r.np; i++ ) if ( ref[i].e <= 1e-2 * sc + 1e-30 ) tight++;
        stat_add( "entries_compared", tight ); stat_add( "entries_with_wide_bound", r.np - tight );
        for ( size_t i = 0; i < r.np; i++ ) if ( !ed_ok( ref[i], g.p[i] ) && fabs( ref[i].v ) < 1e30 ) {
            size_t k = i; int l = 0; while ( k >= (size_t)(s.sz[l]+1) * s.sz[l+1] ) { k -= (size_t)(s.sz[l]+1) * s.sz[l+1]; l++; }
            viol( "value", "entry %zu of %zu (layer %d, %s %zu) is %.9g, expected %.9g +- %.2g", i, r.np, l, k < (size_t) s.sz[l+1] ? "bias" : "weight", k < (size_t) s.sz[l+1] ? k : k - s.sz[l+1], g.p[i], ref[i].v, ref[i].e );
            break;
        }
        /* is the reference right? compare some entries with finite differences of the loss in double precision */
        if ( h_case % 8 == 0 && r.np < 4000 ) {
            for ( int q = 0; q < 6; q++ ) {
                size_t i = rnd() % r.np, k = i; int l = 0; while ( k >= (size_t)(s.sz[l]+1) * s.sz[l+1] ) { k -= (size_t)(s.sz[l]+1) * s.sz[l+1]; l++; }
                if ( ref[i].e > 1e-3 * sc ) continue;
                double h = 1e-5, a = dforward_loss( &s, snap, l, k, h, xs, ts, loss ), b = dforward_loss( &s, snap, l, k, -h, xs, ts, loss );
                double c = dforward_loss( &s, snap, l, k, 0, xs, ts, loss );
                double fd = (a - b) / (2*h), k1 = (a - c) / h, k2 = (c - b) / h;
                if ( !isfinite( fd ) || fabs( k1 - k2 ) > 0.02 * (fabs( k1 ) + fabs( k2 )) ) continue;   /* a kink nearby */
                if ( fabs( fd - ref[i].v ) > 1e-3 * sc + 3 * ref[i].e + 1e-9 ) { viol( "oracle", "finite difference %.9g, derivation %.9g, library %.9g (entry %zu)", fd, ref[i].v, g.p[i], i ); break; }
                stat_add( "entries_checked_by_finite_differences", 1 );
            }
        }
        free( ref );
    }
    if ( !gb_intact( &g )) viol( "overwrite", "memory beside the gradient of %zu values was written", r.np );
    if ( !gb_intact( &x ) || !gb_intact( &t ) || memcmp( x.p, xs, ni * 4 ) || memcmp( t.p, ts, no * 4 )) viol( "input", "input or target was modified" );
    if ( !params_same( nn, snap )) viol( "params", "backpropagation changed the network" );
    float *g1 = malloc( r.np * 4 ); memcpy( g1, g.p, r.np * 4 );
    for ( size_t i = 0; i < r.np; i++ ) g.p[i] = bitsf( i & 1 ? 0x7f7fffff : NANPAT );
    scribble( rndi( 0, 2 ));
    neuralnet_backpropagation( nn, x.p, t.p, g.p );
    if ( memcmp( g1, g.p, r.np * 4 )) viol( "repeat", "two identical calls gave different bits" );
    cover( h_hash( (int[]){ oi, ot, og, loss }, 16, spec_hash( &s )));
    if ( h_case % 97 == 0 ) sample( "%s loss %s: %zu gradient entries", s.desc, loss_names[loss], r.np );
    free( g1 ); free( xs ); free( ts ); gb_free( &x ); gb_free( &t ); gb_free( &g ); rnet_free( &r ); params_free( snap, s.L ); neuralnet_free( nn );
    h_evals++;
}

/* which pairings of loss and output activation are announced */
static int capfd = -1;
static void case_pairing( void )
{
    static const char *names[] = { "mean_squared_error", "mse", "mean_absolute_error", "mae", "mean_absolute_percentage_error", "mape", "categorical_crossentropy", "binary_crossentropy", "nosuchloss", "MSE", "", "binary_crossentropy " };
    spec_t s; spec_random( &s, 4, 20, true ); s.act[s.L-1] = rndi( 0, A_N - 1 ); spec_desc( &s );
    neuralnet_t *nn = spec_create( &s ); if ( !nn ) { viol( "create", "neuralnet_create failed" ); return; }
    fill_params( nn ); float **snap = params_snapshot( nn );
    int oa = s.act[s.L-1], calls = rndi( 1, 5 );
    for ( int i = 0; i < calls; i++ ) {
        int k = chance( 0.8 ) ? rndi( 0, 7 ) : rndi( 8, 11 ), loss = k < 2 ? L_MSE : k < 4 ? L_MAE : k < 6 ? L_MAPE : k == 6 ? L_CCE : L_BCE;
        cur( "setting loss '%s' for %s", names[k], s.desc );
        char text[2000]; fflush( stdout ); fflush( stderr ); int o1 = dup( 1 ), o2 = dup( 2 ); if ( ftruncate( capfd, 0 )) exit( 3 ); lseek( capfd, 0, SEEK_SET ); dup2( capfd, 1 ); dup2( capfd, 2 );
        neuralnet_set_loss( nn, names[k] );
        fflush( stdout ); fflush( stderr ); dup2( o1, 1 ); dup2( o2, 2 ); close( o1 ); close( o2 );
        ssize_t n = pread( capfd, text, sizeof text - 1, 0 ); text[n < 0 ? 0 : n] = 0; bool warned = strstr( text, "arning" ) || strstr( text, "rror" );
        if ( k > 7 ) { if ( nn->loss ) viol( "loss", "an unknown loss '%s' gave a function", names[k] ); if ( !n ) viol( "pairing", "nothing was said about the unknown loss '%s'", names[k] ); }
        else {
            bool good = loss == L_CCE ? oa == A_SOFTMAX : loss == L_BCE ? oa == A_SIGMOID : oa != A_SOFTMAX;
            if ( !nn->loss || strcmp( get_loss_name( nn->loss ), loss_names[loss] )) viol( "loss", "loss '%s' was set to %s", names[k], nn->loss ? get_loss_name( nn->loss ) : "nothing" );
            if ( good && warned ) viol( "pairing", "%s with loss %s was announced as a mismatch: %.100s", act_names[oa], names[k], text );
            if ( !good && !warned ) viol( "pairing", "nothing was said about %s with loss %s", act_names[oa], names[k] );
            stat_add( good ? "supported_pairings" : "announced_pairings", 1 );
        }
        h_evals++; cover( h_hash( (int[]){ oa, k, i }, 12, 77 ));
    }
    if ( !params_same( nn, snap )) viol( "params", "setting the loss changed the parameters" );
    params_free( snap, s.L ); neuralnet_free( nn );
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); heap_poison(); bool pairing = !strcmp( h_mode, "pairing" );
    if ( pairing ) capfd = memfd_create( "said", 0 );
    for ( long c = h_from; c < h_to; c++ ) { h_begin( c ); if ( pairing ) case_pairing(); else case_grad(); }
    h_finish();
    return 0;
}
