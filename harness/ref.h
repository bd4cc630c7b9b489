/* ref.h - double precision reference of the network with running error bounds: each number comes with
 * a bound on how far a single precision calculation, in any order of summation, may be from it. */
#ifndef REF_H
#define REF_H
#include "h.h"
#include "neuralnet.h"
#include "activation.h"
#include "simd.h"

enum { A_SOFTPLUS, A_SOFTSIGN, A_HARD_SIGMOID, A_EXPONENTIAL, A_LINEAR, A_RELU, A_SOFTMAX, A_SIGMOID, A_TANH, A_N };
static const char *act_names[A_N] = { "softplus", "softsign", "hard_sigmoid", "exponential", "linear", "relu", "softmax", "sigmoid", "tanh" };
enum { L_MSE, L_MAE, L_MAPE, L_CCE, L_BCE, L_N };
static const char *loss_names[L_N] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy" };

typedef struct { double v, e; } ed;
#define U24 (1.0 / 16777216.0)
#define TINY 1e-37
static inline ed ed_c( double v ) { return (ed){ v, 0 }; }
static inline ed ed_add( ed a, ed b ) { double v = a.v + b.v; return (ed){ v, a.e + b.e + 1.01 * U24 * (fabs( v ) + a.e + b.e) + 1e-44 }; }
static inline ed ed_mul( ed a, ed b ) { double v = a.v * b.v, e = fabs( a.v ) * b.e + fabs( b.v ) * a.e + a.e * b.e; return (ed){ v, e + 1.01 * U24 * (fabs( v ) + e) + 1e-44 }; }
static inline ed ed_div( ed a, ed b )
{
    double d = fabs( b.v ) - b.e; if ( d <= 0 ) return (ed){ a.v / b.v, INFINITY };
    double v = a.v / b.v, e = ( a.e + fabs( v ) * b.e ) / d; return (ed){ v, e + 1.01 * U24 * (fabs( v ) + e) + 1e-44 };
}
static inline ed ed_sqrt( ed a )
{
    double lo = sqrt( fmax( a.v - a.e, 0 )), hi = sqrt( fmax( a.v + a.e, 0 )), v = sqrt( fmax( a.v, 0 ));
    return (ed){ v, fmax( hi - v, v - lo ) + 1.01 * U24 * hi + 1e-44 };
}
/* slack: contraction to fma and the like are covered by a factor */
static inline bool ed_ok( ed r, float got )
{
    if ( isnan( got )) return false;
    if ( !isfinite( r.e ) ) return true;
    return fabs( (double) got - r.v ) <= 3.0 * r.e + 4 * U24 * fabs( r.v ) + 1e-43;
}

static double act_f( int k, double z )
{
    switch ( k ) {
        case A_SOFTPLUS: return fmax( z, 0 ) + log1p( exp( -fabs( z )));
        case A_SOFTSIGN: return z / (1 + fabs( z ));
        case A_HARD_SIGMOID: return z < -2.5 ? 0 : z > 2.5 ? 1 : 0.2 * z + 0.5;
        case A_EXPONENTIAL: return exp( z );
        case A_RELU: return z > 0 ? z : 0;
        case A_SIGMOID: return z >= 0 ? 1 / (1 + exp( -z )) : exp( z ) / (1 + exp( z ));
        case A_TANH: return tanh( z );
        default: return z;
    }
}
/* accuracy of a single precision evaluation of the function, around value v = f(z) */
static double act_tol( int k, double z, double v )
{
    switch ( k ) {
        case A_SOFTPLUS: return 4e-7 * fabs( v ) + TINY;
        case A_SOFTSIGN: return 3e-7 * fabs( v ) + TINY;
        case A_HARD_SIGMOID: return 2.5e-7;
        case A_EXPONENTIAL: return 4e-7 * fabs( v ) + TINY;
        case A_SIGMOID: return ( 6e-7 + 1.2e-7 * (fabs( z ) > 10 ? 1 : 0)) * fabs( v ) + TINY;
        case A_TANH: return 5e-7;
        case A_SOFTMAX: return 6e-7 * fabs( v ) + TINY;
        default: return 0;
    }
}
static void act_ed( int k, int n, const ed *z, ed *a )
{
    if ( k == A_SOFTMAX ) {
        double mx = -INFINITY, em = 0, md = 0, s = 0;
        for ( int i = 0; i < n; i++ ) { if ( z[i].v > mx ) mx = z[i].v; if ( z[i].e > em ) em = z[i].e; }
        for ( int i = 0; i < n; i++ ) { double d = exp( z[i].v - mx ); s += d; (void) d; if ( mx - z[i].v > md && mx - z[i].v < 90 ) md = mx - z[i].v; }
        for ( int i = 0; i < n; i++ ) {
            double p = exp( z[i].v - mx ) / s, rel = expm1( 2 * em + 2 * U24 * md ) + (n + 4) * U24 + 6e-7;
            a[i] = (ed){ p, p * rel + TINY };
        }
        return;
    }
    for ( int i = 0; i < n; i++ ) {
        double v = act_f( k, z[i].v ), lo = act_f( k, z[i].v - z[i].e ), hi = act_f( k, z[i].v + z[i].e );
        a[i] = (ed){ v, fmax( hi - v, v - lo ) + act_tol( k, z[i].v, v ) };
    }
}
/* derivative, expressed in the output a of the activation; z is known for the kinks */
static ed act_d_ed( int k, ed z, ed a )
{
    double x = a.v, e = a.e;
    switch ( k ) {
        case A_SOFTPLUS: { double v = -expm1( -x ); return (ed){ v, exp( -x ) * expm1( fmin( e, 50 )) + 4e-7 * fabs( v ) + 1e-44 }; }
        case A_SOFTSIGN: { double q = 1 - fabs( x ); return (ed){ q * q, 2 * q * (e + U24) + 2 * (e + U24) * (e + U24) + 6e-7 * q * q }; }
        case A_HARD_SIGMOID: { double s = z.e + 1e-5;
            if ( fabs( z.v - 2.5 ) <= s || fabs( z.v + 2.5 ) <= s ) return (ed){ 0.1, 0.1001 };
            return (ed){ fabs( z.v ) < 2.5 ? 0.2 : 0, 1e-8 }; }
        case A_EXPONENTIAL: return a;
        case A_RELU: if ( fabs( z.v ) <= z.e + 1e-43 ) return (ed){ 0.5, 0.5001 }; return (ed){ z.v > 0 ? 1 : 0, 0 };
        case A_SIGMOID: { double v = x * (1 - x); return (ed){ v, fabs( 1 - 2 * x ) * e + e * e + U24 * x + 2e-7 * fabs( v ) + 1e-44 }; }
        case A_TANH: { double v = 1 - x * x; return (ed){ v, 2 * fabs( x ) * e + e * e + 2 * U24 }; }
        default: return ed_c( 1 );
    }
}
static ed loss_d_ed( int l, int n, ed p, double t )
{
    switch ( l ) {
        case L_MSE: { double v = 2 * (p.v - t) / n; return (ed){ v, 2 * p.e / n + 4 * U24 * fabs( v ) + 2 * U24 * ( fabs( t ) + fabs( p.v )) / n * 0 + 1e-44 }; }
        case L_MAE: if ( fabs( p.v - t ) <= p.e ) return (ed){ 0, 1.0001 / n }; return (ed){ (p.v > t ? 1.0 : -1.0) / n, U24 * 2 / n };
        case L_MAPE: { double s = 100.0 / ( fmax( fabs( t ), 1e-7 ) * n ); if ( fabs( p.v - t ) <= p.e ) return (ed){ 0, 1.0001 * s };
            return (ed){ p.v > t ? s : -s, 4 * U24 * s }; }
        case L_CCE: return (ed){ p.v - t, p.e + 2 * U24 * fabs( p.v - t ) + 1e-44 };
        default:    return (ed){ (p.v - t) / n, p.e / n + 3 * U24 * fabs( p.v - t ) / n + 1e-44 };
    }
}
/* the plain loss in double, for finite differences */
static double loss_val( int l, int n, const double *p, const double *t )
{
    double s = 0;
    for ( int i = 0; i < n; i++ ) switch ( l ) {
        case L_MSE: s += (p[i]-t[i]) * (p[i]-t[i]) / n; break;
        case L_MAE: s += fabs( p[i]-t[i] ) / n; break;
        case L_MAPE: s += 100 * fabs( p[i]-t[i] ) / fmax( fabs( t[i] ), 1e-7 ) / n; break;
        case L_CCE: s -= t[i] == 0 ? 0 : t[i] * log( p[i] ); break;   /* sum form */
        case L_BCE: s -= ( t[i] * log( p[i] ) + (1-t[i]) * log1p( -p[i] )) / n; break;
    }
    return s;
}

#define MAXL 132    /* layers */
typedef struct { int L; int sz[MAXL+1]; int act[MAXL]; const float *w[MAXL], *b[MAXL]; ed *z[MAXL], *a[MAXL+1]; ed *d[MAXL]; size_t np; } rnet;
static void rnet_init( rnet *r, const neuralnet_t *nn, const int *act )
{
    memset( r, 0, sizeof *r ); r->L = nn->n_layers;
    r->sz[0] = nn->layer[0].n_input;
    for ( int l = 0; l < r->L; l++ ) {
        r->sz[l+1] = nn->layer[l].n_output; r->act[l] = act[l]; r->w[l] = nn->layer[l].weight; r->b[l] = nn->layer[l].bias;
        r->np += (size_t)(r->sz[l] + 1) * r->sz[l+1];
    }
    for ( int l = 0; l <= r->L; l++ ) r->a[l] = calloc( r->sz[l], sizeof(ed) );
    for ( int l = 0; l < r->L; l++ ) { r->z[l] = calloc( r->sz[l+1], sizeof(ed) ); r->d[l] = calloc( r->sz[l+1], sizeof(ed) ); }
}
static void rnet_free( rnet *r )
{
    for ( int l = 0; l <= r->L; l++ ) free( r->a[l] );
    for ( int l = 0; l < r->L; l++ ) { free( r->z[l] ); free( r->d[l] ); }
}
/* one layer: z = b + x w, bounds for any order of summation (a weight of zero adds exactly nothing) */
static void rnet_layer( int n, int m, const float *w, const float *b, const ed *x, ed *z )
{
    double *S = calloc( m, sizeof(double) ), *E = calloc( m, sizeof(double) ); int *N = calloc( m, sizeof(int) );
    for ( int j = 0; j < m; j++ ) { z[j].v = b[j]; S[j] = fabs( (double) b[j] ); }
    for ( int i = 0; i < n; i++ ) {
        double xv = x[i].v, xe = x[i].e; const float *wi = w + (size_t) i * m;
        for ( int j = 0; j < m; j++ ) { double t = xv * wi[j], aw = fabs( (double) wi[j] ); z[j].v += t; S[j] += fabs( t ) + xe * aw; E[j] += xe * aw; N[j] += wi[j] != 0; }
    }
    /* sums of not too large whole numbers are exact in every order */
    bool whole = true;
    for ( int i = 0; i < n && whole; i++ ) whole = x[i].e == 0 && x[i].v == rint( x[i].v );
    for ( int j = 0; j < m && whole; j++ ) whole = b[j] == rintf( b[j] ) && S[j] < 16000000;
    for ( size_t k = 0; k < (size_t) n * m && whole; k++ ) whole = w[k] == rintf( w[k] );
    if ( whole ) for ( int j = 0; j < m; j++ ) z[j].e = 0;
    else for ( int j = 0; j < m; j++ ) z[j].e = E[j] + (N[j] + 2) * 1.01 * U24 * S[j] + (N[j] + 1) * 1e-44;
    free( N ); free( S ); free( E );
}
static const ed *rnet_forward( rnet *r, const float *x )
{
    for ( int i = 0; i < r->sz[0]; i++ ) r->a[0][i] = ed_c( x[i] );
    for ( int l = 0; l < r->L; l++ ) {
        rnet_layer( r->sz[l], r->sz[l+1], r->w[l], r->b[l], r->a[l], r->z[l] );
        act_ed( r->act[l], r->sz[l+1], r->z[l], r->a[l+1] );
    }
    return r->a[r->L];
}
/* is no number on the way anywhere near the largest of single precision? Then the result is finite, whatever the rounding. */
__attribute__((unused)) static bool rnet_finite( const rnet *r )
{
    for ( int l = 0; l < r->L; l++ ) for ( int i = 0; i < r->sz[l+1]; i++ ) {
        if ( !( fabs( r->z[l][i].v ) + r->z[l][i].e < 1e33 ) ) return false;
        if ( r->act[l] == A_EXPONENTIAL && r->z[l][i].v + r->z[l][i].e > 70 ) return false;
    }
    return true;
}
/* is the bound tight enough to say something? */
static bool ed_usable( const ed *a, int n )
{
    for ( int i = 0; i < n; i++ ) if ( !isfinite( a[i].v ) || fabs( a[i].v ) > 1e30 || !( a[i].e <= 1e-2 * fmax( 1.0, fabs( a[i].v )) ) ) return false;
    return true;
}
/* gradient of loss l (after forward), in the library's layout: bias, weights, per layer */
static void rnet_backward( rnet *r, int l, const float *t, ed *g )
{
    int L = r->L, n = r->sz[L];
    bool matched = ( l == L_BCE && r->act[L-1] == A_SIGMOID ) || ( l == L_CCE && r->act[L-1] == A_SOFTMAX );
    for ( int j = 0; j < n; j++ ) {
        ed d = loss_d_ed( l, n, r->a[L][j], t[j] );
        if ( !matched ) d = ed_mul( d, act_d_ed( r->act[L-1], r->z[L-1][j], r->a[L][j] ));
        r->d[L-1][j] = d;
    }
    for ( int k = L-2; k >= 0; k-- ) for ( int i = 0; i < r->sz[k+1]; i++ ) {
        double v = 0, S = 0, E = 0; int m = r->sz[k+2], N = 0;
        for ( int j = 0; j < m; j++ ) { double w = r->w[k+1][(size_t) i * m + j]; v += w * r->d[k+1][j].v; S += fabs( w ) * ( fabs( r->d[k+1][j].v ) + r->d[k+1][j].e ); E += fabs( w ) * r->d[k+1][j].e; N += w != 0; }
        ed s = { v, E + (N + 2) * 1.01 * U24 * S + (N + 1) * 1e-44 };
        r->d[k][i] = ed_mul( s, act_d_ed( r->act[k], r->z[k][i], r->a[k+1][i] ));
    }
    ed *p = g;
    for ( int k = 0; k < L; k++ ) {
        for ( int j = 0; j < r->sz[k+1]; j++ ) *p++ = r->d[k][j];
        for ( int i = 0; i < r->sz[k]; i++ ) for ( int j = 0; j < r->sz[k+1]; j++ ) *p++ = ed_mul( r->a[k][i], r->d[k][j] );
    }
}

/* ------------------------------------------------------------------ random networks */
typedef struct { int L; int sz[MAXL+1]; int act[MAXL]; char desc[500]; } spec_t;
static void spec_desc( spec_t *s )
{
    int n = snprintf( s->desc, sizeof s->desc, "{%d", s->sz[0] );
    if ( s->L > 16 ) { snprintf( s->desc, sizeof s->desc, "{%d, %d layers, %d:%s}", s->sz[0], s->L, s->sz[s->L], act_names[s->act[s->L-1]] ); return; }
    for ( int l = 0; l < s->L; l++ ) n += snprintf( s->desc + n, sizeof s->desc - n, ",%d:%s", s->sz[l+1], act_names[s->act[l]] );
    snprintf( s->desc + n, sizeof s->desc - n, "}" );
}
__attribute__((unused)) static void spec_random( spec_t *s, int maxL, int maxsz, bool softmax_anywhere )
{
    s->L = chance( 0.15 ) ? 1 : rndi( 1, maxL );
    int nexp = 0;
    for ( int l = 0; l <= s->L; l++ ) s->sz[l] = rnd_size( maxsz );
    for ( int l = 0; l < s->L; l++ ) {
        int k; do k = rndi( 0, A_N - 1 ); while (( k == A_SOFTMAX && !softmax_anywhere && l < s->L - 1 ) || ( k == A_EXPONENTIAL && nexp ));
        if ( k == A_EXPONENTIAL ) nexp++;
        s->act[l] = k;
    }
    spec_desc( s );
}
/* one layer much wider than the others; the activation of the last one stays what it was */
__attribute__((unused)) static void spec_wide( spec_t *s, int max )
{
    int oa = s->act[s->L-1]; s->L = rndi( 1, 3 ); for ( int l = 0; l <= s->L; l++ ) s->sz[l] = rndi( 1, 3 );
    int k = rndi( 0, 2 ), w = k == 0 ? rndi( 1000, 5000 ) : k == 1 ? ( 1 << rndi( 9, 16 )) + rndi( -1, 1 ) : chance( 0.5 ) ? rndi( 65530, 70000 ) : rndi( 5000, 65536 );
    if ( w > max ) w = rndi( max / 4, max );
    s->sz[ chance( 0.4 ) ? 0 : rndi( 0, s->L ) ] = w;
    for ( int l = 0; l < s->L; l++ ) s->act[l] = ( (int[]){ A_SOFTSIGN, A_RELU, A_SIGMOID, A_TANH, A_LINEAR, A_HARD_SIGMOID } )[rndi( 0, 5 )];
    s->act[s->L-1] = oa; spec_desc( s );
}
/* many narrow layers; the last one stays what it was */
__attribute__((unused)) static void spec_deep( spec_t *s )
{
    int no = s->sz[s->L], oa = s->act[s->L-1]; s->L = rndi( 7, 16 );
    for ( int l = 0; l < s->L; l++ ) { s->sz[l] = chance( 0.5 ) ? rndi( 1, 6 ) : rndi( 1, 24 ); s->act[l] = ( (int[]){ A_SOFTSIGN, A_RELU, A_SIGMOID, A_TANH, A_LINEAR, A_HARD_SIGMOID } )[rndi( 0, 5 )]; }
    s->sz[s->L] = no; s->act[s->L-1] = oa; spec_desc( s );
}
/* very many layers, with activations that neither lose the signal nor let it explode (bounds stay tight) */
__attribute__((unused)) static void spec_abyss( spec_t *s )
{
    int no = s->sz[s->L], oa = s->act[s->L-1], k = rndi( 0, 3 ); s->L = chance( 0.3 ) ? ( 1 << rndi( 4, 7 )) + rndi( -1, 2 ) : rndi( 17, 130 );
    for ( int l = 0; l < s->L; l++ ) { s->sz[l] = k == 0 ? 1 : k == 1 ? rndi( 1, 3 ) : k == 2 ? rndi( 7, 9 ) : rndi( 1, 20 ); s->act[l] = ( (int[]){ A_LINEAR, A_TANH, A_SOFTSIGN, A_SIGMOID, A_LINEAR, A_HARD_SIGMOID } )[k == 0 ? 0 : rndi( 0, 5 )]; }
    s->sz[s->L] = no; s->act[s->L-1] = oa; spec_desc( s );
}
__attribute__((unused)) static neuralnet_t *spec_create( const spec_t *s )
{
    int sizes[MAXL+1]; char *names[MAXL+1];
    for ( int l = 0; l <= s->L; l++ ) sizes[l] = s->sz[l];
    for ( int l = 0; l < s->L; l++ ) names[l] = (char*) act_names[s->act[l]];
    names[s->L] = NULL;
    return neuralnet_create( s->L, sizes, names );
}
__attribute__((unused)) static void fill_params( neuralnet_t *nn )
{
    for ( int l = 0; l < nn->n_layers; l++ ) {
        int n = nn->layer[l].n_input, m = nn->layer[l].n_output; double sc = (chance( 0.2 ) ? 2.0 : 1.0) / sqrt( n );
        if ( n > 2000 && chance( 0.7 )) {       /* mostly zeros, such that the rounding of so many terms does not hide everything */
            double p = (double) rndi( 10, 400 ) / n; for ( size_t i = 0; i < (size_t) n * m; i++ ) nn->layer[l].weight[i] = chance( p ) ? (float)( rndn() / sqrt( p * n )) : 0.0f;
            for ( int i = 0; i < m; i++ ) nn->layer[l].bias[i] = (float)( rndn() * 0.5 );
            continue;
        }
        for ( size_t i = 0; i < (size_t) n * m; i++ ) nn->layer[l].weight[i] = chance( 0.03 ) ? 0.0f : (float)( rndn() * sc );
        for ( int i = 0; i < m; i++ ) nn->layer[l].bias[i] = chance( 0.05 ) ? 0.0f : (float)( rndn() * 0.5 );
    }
}
__attribute__((unused)) static void fill_input( float *x, int n )
{
    int style = rndi( 0, 5 );
    for ( int i = 0; i < n; i++ ) {
        float v = (float) rndn();
        if ( style == 0 ) v = chance( 0.5 ) ? 0.0f : 1.0f;                    /* one-hot like */
        else if ( style == 1 && chance( 0.3 )) v = chance( 0.5 ) ? 1.0f : chance( 0.5 ) ? -1.0f : 0.0f;
        else if ( style == 2 ) v *= 0.01f;
        else if ( style == 3 ) { if ( chance( 0.1 )) v = -0.0f; else if ( chance( 0.05 )) v = 1e-40f; else v *= 3; }
        x[i] = v;
    }
}
/* whole numbers, such that not even a sum over a hundred thousand terms is rounded: the outputs have to be exact */
__attribute__((unused)) static void fill_whole( neuralnet_t *nn, float *x, size_t n )
{
    for ( int l = 0; l < nn->n_layers; l++ ) {
        int a = nn->layer[l].n_input, m = nn->layer[l].n_output, b = rndi( 1, 2 ); bool rare = l > 0 && a < 2000 && chance( 0.5 );
        for ( size_t i = 0; i < (size_t) a * m; i++ ) nn->layer[l].weight[i] = rare && !chance( 2.0 / a ) ? 0 : rndi( -b, b );
        for ( int i = 0; i < m; i++ ) nn->layer[l].bias[i] = rndi( -3, 3 );
    }
    for ( size_t i = 0; i < n; i++ ) x[i] = rndi( -3, 3 );
}
/* now and then parameters and inputs of another size, where functions saturate */
__attribute__((unused)) static bool fill_wild( neuralnet_t *nn, float *x, size_t n )
{
    if ( !chance( 0.2 )) return false;
    if ( chance( 0.25 )) {                   /* small inputs with large weights: their products are ordinary numbers */
        int ni = nn->layer[0].n_input, no = nn->layer[0].n_output, e = rndi( 3, 37 );
        for ( int j = 0; j < ni; j++ ) if ( chance( 0.4 )) {
            for ( size_t i = j; i < n; i += ni ) x[i] *= (float) pow( 10, -e );
            for ( int k = 0; k < no; k++ ) nn->layer[0].weight[(size_t) j * no + k] *= (float) pow( 10, e );
        }
        return true;
    }
    double f = pow( 10, rndu() * 5 );
    if ( chance( 0.6 )) for ( size_t i = 0; i < n; i++ ) x[i] *= (float) f;
    if ( chance( 0.6 )) { int l = rndi( 0, nn->n_layers - 1 ); for ( int i = 0; i < nn->layer[l].n_output; i++ ) nn->layer[l].bias[i] *= (float) f; }
    if ( chance( 0.3 )) { int l = rndi( 0, nn->n_layers - 1 ); size_t k = (size_t) nn->layer[l].n_input * nn->layer[l].n_output; for ( size_t i = 0; i < k; i++ ) nn->layer[l].weight[i] *= (float) sqrt( f ); }
    return true;
}
__attribute__((unused)) static void fill_target( float *t, int n, int loss )
{
    if ( loss == L_CCE ) { memset( t, 0, n * sizeof(float)); if ( chance( 0.7 )) t[rndi( 0, n-1 )] = 1; else { double s = 0; for ( int i = 0; i < n; i++ ) { t[i] = (float) rndu(); s += t[i]; } for ( int i = 0; i < n; i++ ) t[i] /= (float) s; } }
    else if ( loss == L_BCE ) for ( int i = 0; i < n; i++ ) t[i] = chance( 0.6 ) ? (float)( rnd() & 1 ) : (float) rndu();
    else if ( loss == L_MAPE ) for ( int i = 0; i < n; i++ ) t[i] = (float)( rndn() + (chance( 0.5 ) ? 2 : -2 ));
    else for ( int i = 0; i < n; i++ ) t[i] = (float) rndn();
}
static uint64_t spec_hash( const spec_t *s ) { return h_hash( s->sz, sizeof(int) * (s->L + 1), h_hash( s->act, sizeof(int) * s->L, s->L )); }
__attribute__((unused)) static float **params_snapshot( const neuralnet_t *nn )
{
    float **p = calloc( 2 * nn->n_layers, sizeof *p );
    for ( int l = 0; l < nn->n_layers; l++ ) {
        size_t nw = (size_t) nn->layer[l].n_input * nn->layer[l].n_output, nb = nn->layer[l].n_output;
        p[2*l] = malloc( nw * 4 ); memcpy( p[2*l], nn->layer[l].weight, nw * 4 );
        p[2*l+1] = malloc( nb * 4 ); memcpy( p[2*l+1], nn->layer[l].bias, nb * 4 );
    }
    return p;
}
__attribute__((unused)) static bool params_same( const neuralnet_t *nn, float **p )
{
    for ( int l = 0; l < nn->n_layers; l++ ) {
        size_t nw = (size_t) nn->layer[l].n_input * nn->layer[l].n_output, nb = nn->layer[l].n_output;
        if ( memcmp( p[2*l], nn->layer[l].weight, nw * 4 ) || memcmp( p[2*l+1], nn->layer[l].bias, nb * 4 )) return false;
    }
    return true;
}
__attribute__((unused)) static void params_free( float **p, int L ) { for ( int i = 0; i < 2 * L; i++ ) free( p[i] ); free( p ); }
#endif
