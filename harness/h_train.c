/* C06, C07, C08: what an epoch of training does. The network's loss function is wrapped, so that every gradient
 * computation is recorded: which target it was given, what had been predicted, with which parameters. */
#include "h.h"
#include "ref.h"
#include "optimizer_implementations.h"
#include "evaluate.h"
#include "loss.h"
#include <pthread.h>
#include <omp.h>

enum { O_SGD, O_RMSPROP, O_ADAGRAD, O_ADAM, O_N };
static const char *opt_names[O_N] = { "SGD", "RMSprop", "adagrad", "adam" };
static const char *metric_names[7] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy", "binary_accuracy", "categorical_accuracy" };

/* ------------------------------------------------------------------ recording */
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static struct {
    neuralnet_t *nn; loss_func real; int n, ni, no, bs; const float *X, *Y; bool *used; unsigned calls;
    int *row; float *pred; float *par; size_t np; unsigned nbatch, maxcalls; bool overflow, parchange, foreign, badn;
    struct { int x, n; unsigned calls; } *prog; unsigned nprog, maxprog;
} R;
static void par_copy( const neuralnet_t *nn, float *p )
{
    for ( int l = 0; l < nn->n_layers; l++ ) {
        int m = nn->layer[l].n_output; size_t k = (size_t) m * nn->layer[l].n_input;
        memcpy( p, nn->layer[l].bias, m * 4 ); p += m; memcpy( p, nn->layer[l].weight, k * 4 ); p += k;
    }
}
static bool par_equal( const neuralnet_t *nn, const float *p )
{
    for ( int l = 0; l < nn->n_layers; l++ ) {
        int m = nn->layer[l].n_output; size_t k = (size_t) m * nn->layer[l].n_input;
        if ( memcmp( p, nn->layer[l].bias, m * 4 ) ) return false; p += m; if ( memcmp( p, nn->layer[l].weight, k * 4 )) return false; p += k;
    }
    return true;
}
static void rec_loss( const unsigned int n, const float *y_pred, const float *y_true, float *loss )
{
    pthread_mutex_lock( &mtx );
    if ( n != (unsigned) R.no ) R.badn = true;
    if ( R.calls < R.maxcalls ) {
        unsigned b = R.calls / R.bs;
        if ( R.calls % R.bs == 0 ) { par_copy( R.nn, R.par + b * R.np ); R.nbatch = b + 1; }
        else if ( !par_equal( R.nn, R.par + b * R.np )) R.parchange = true;
        int row = -1;
        if ( y_true >= R.Y && y_true < R.Y + (size_t) R.n * R.no && ( y_true - R.Y ) % R.no == 0 ) row = ( y_true - R.Y ) / R.no;
        else for ( int i = 0; i < R.n; i++ ) if ( !memcmp( y_true, R.Y + (size_t) i * R.no, R.no * 4 )) { row = i; if ( !R.used[i] ) break; }
        if ( row < 0 ) { R.foreign = true; row = 0; } else R.used[row] = true;
        R.row[R.calls] = row; memcpy( R.pred + (size_t) R.calls * R.no, y_pred, R.no * 4 );
    } else R.overflow = true;
    R.calls++;
    pthread_mutex_unlock( &mtx );
    R.real( n, y_pred, y_true, loss );
}
static void rec_progress( int x, int n, const char *fmt, ... )
{
    (void) fmt;
    if ( R.nprog < R.maxprog ) { R.prog[R.nprog].x = x; R.prog[R.nprog].n = n; R.prog[R.nprog].calls = R.calls; }
    R.nprog++;
}
static void rec_start( neuralnet_t *nn, int n, const float *X, const float *Y, int bs, size_t np )
{
    R.nn = nn; R.n = n; R.X = X; R.Y = Y; R.bs = bs > n ? n : bs; R.np = np; R.calls = R.nprog = R.nbatch = 0;
    R.ni = nn->layer[0].n_input; R.no = nn->layer[nn->n_layers-1].n_output;
    R.overflow = R.parchange = R.foreign = R.badn = false;
    R.maxcalls = 2 * n + 4; R.maxprog = 2 * n + 4;
    R.used = calloc( n, 1 ); R.row = calloc( R.maxcalls, sizeof(int) ); R.pred = calloc( (size_t) R.maxcalls * R.no, 4 );
    R.par = malloc( ( (size_t)( R.maxcalls / R.bs ) + 1 ) * np * 4 ); R.prog = calloc( R.maxprog, sizeof *R.prog );
}
static void rec_end( void ) { free( R.used ); free( R.row ); free( R.pred ); free( R.par ); free( R.prog ); }

/* ------------------------------------------------------------------ the update rules, with error bounds */
typedef struct { int kind; float lr0, decay, mom, rho, b1, b2, wd; bool nesterov; int form; ed lr, b1c, b2c; unsigned it; size_t np; ed *v, *r, *s; } rule_t;
static void rule_init( rule_t *u, size_t np )
{
    u->lr = ed_c( u->lr0 ); u->b1c = u->b2c = ed_c( 1 ); u->it = 0; u->np = np;
    u->v = calloc( np, sizeof(ed) ); u->r = calloc( np, sizeof(ed) ); u->s = calloc( np, sizeof(ed) );
}
static void rule_free( rule_t *u ) { free( u->v ); free( u->r ); free( u->s ); }
static inline ed ed_neg( ed a ) { a.v = -a.v; return a; }
/* one step from parameters p (where the gradient g was taken); out: what they are when the next gradient is taken, or at the end of the epoch */
static void rule_step( rule_t *u, const ed *g, const float *p, bool last, ed *out )
{
    bool mom = ( u->kind == O_SGD || u->kind == O_RMSPROP ) && u->mom > 0;
    if ( u->kind != O_ADAM ) {
        if ( u->decay > 0 ) u->lr = ed_div( u->lr, ed_add( ed_c( 1 ), ed_mul( ed_c( u->decay ), ed_c( u->it )))), u->lr.e += 2 * U24 * u->lr.v;
        u->it++;
    } else { u->b1c = ed_mul( u->b1c, ed_c( u->b1 )); u->b2c = ed_mul( u->b2c, ed_c( u->b2 )); }
    for ( size_t i = 0; i < u->np; i++ ) {
        ed d, gi = g[i];
        switch ( u->kind ) {
            case O_SGD: d = ed_neg( ed_mul( u->lr, gi )); break;
            case O_ADAGRAD:
                u->r[i] = ed_add( u->r[i], ed_mul( gi, gi ));
                d = ed_neg( ed_div( ed_mul( u->lr, gi ), ed_add( ed_c( 1e-7 ), ed_sqrt( u->r[i] )))); d.e += 2 * U24 * fabs( d.v ); break;
            case O_RMSPROP:
                u->r[i] = ed_add( ed_mul( ed_c( u->rho ), u->r[i] ), ed_mul( ed_add( ed_c( 1 ), ed_c( -(double) u->rho )), ed_mul( gi, gi )));
                d = ed_neg( ed_div( ed_mul( u->lr, gi ), ed_add( ed_c( 1e-7 ), ed_sqrt( u->r[i] )))); d.e += 2 * U24 * fabs( d.v ); break;
            default:
                u->s[i] = ed_add( ed_mul( ed_c( u->b1 ), u->s[i] ), ed_mul( ed_add( ed_c( 1 ), ed_c( -(double) u->b1 )), gi ));
                u->r[i] = ed_add( ed_mul( ed_c( u->b2 ), u->r[i] ), ed_mul( ed_add( ed_c( 1 ), ed_c( -(double) u->b2 )), ed_mul( gi, gi )));
                d = ed_neg( ed_div( ed_mul( u->lr, ed_div( u->s[i], ed_add( ed_c( 1 ), ed_neg( u->b1c )))),
                    ed_add( ed_sqrt( ed_div( u->r[i], ed_add( ed_c( 1 ), ed_neg( u->b2c )))), ed_c( 1e-8 ))));
                d.e += 2 * U24 * fabs( d.v );
                if ( u->wd > 0 ) d = ed_add( d, ed_mul( ed_c( -(double) u->wd ), ed_c( p[i] )));
        }
        if ( mom ) u->v[i] = ed_add( ed_mul( ed_c( u->mom ), u->v[i] ), d );
        ed q = ed_add( ed_c( p[i] ), mom && !u->nesterov ? u->v[i] : d );
        if ( mom && u->nesterov && !last ) q = ed_add( q, ed_mul( ed_c( u->mom ), u->v[i] ));
        out[i] = q;
    }
}

/* ------------------------------------------------------------------ metrics with bounds */
static double m_term( int m, double p, double t )
{
    double c = fmin( fmax( p, 1e-7 ), 1 - 1e-7 );
    switch ( m ) {
        case 0: return (p-t) * (p-t);
        case 1: return fabs( p-t );
        case 2: return 100 * fabs( (t-p) / fmax( fabs( t ), 1e-7 ));
        case 3: return -t * log( c );
        default: return -( t * log( c ) + (1-t) * log( 1-c ));
    }
}
static ed metric_ed( int m, int n, const ed *p, const float *t )
{
    ed r = { 0, 0 };
    if ( m <= 4 ) {
        for ( int i = 0; i < n; i++ ) {
            double e = p[i].e + 1.3e-7 * fabs( p[i].v ), v = m_term( m, p[i].v, t[i] ), a = m_term( m, p[i].v - e, t[i] ), b = m_term( m, p[i].v + e, t[i] );
            double w = fmax( fabs( a - v ), fabs( b - v ));
            if ( m >= 3 ) { double c = 1 - 1.1920929e-7, q = fmin( fmax( p[i].v + e, 1e-7 ), c );     /* the upper limit of clipping is 1 - 1e-7 rounded to single precision */
                w = fmax( w, fabs( m_term( m, q, t[i] ) - v )); }
            if ( m == 0 || m == 1 || m == 2 ) w = fmax( w, m == 0 ? e*e : m == 1 ? e : 100*e/fmax( fabs( t[i] ), 1e-7 ));
            r.v += v; r.e += w + (n + 6) * U24 * ( fabs( v ) + w ) + 1e-9 * fabs( t[i] );
        }
        return (ed){ r.v / n, r.e / n };
    }
    if ( m == 5 ) {
        for ( int i = 0; i < n; i++ ) {
            bool hit = ( p[i].v >= 0.5 ) == ( t[i] >= 0.5f );
            r.v += hit;
            if ( fabs( p[i].v - 0.5 ) <= 2 * p[i].e + 1e-6 || fabs( t[i] - 0.5 ) < 1e-6 ) r.e += 1;
        }
        return (ed){ r.v / n, r.e / n + 4 * U24 };
    }
    int a = 0, b = 0; for ( int i = 1; i < n; i++ ) { if ( p[i].v > p[a].v ) a = i; if ( t[i] > t[b] ) b = i; }
    for ( int i = 0; i < n; i++ ) if ( i != a && p[a].v - p[i].v <= 2 * ( p[i].e + p[a].e ) + 1e-30 ) r.e = 1;
    return (ed){ a == b, r.e };
}
static void mean_metrics( rnet *r, int n, const float *X, const float *Y, const int *ms, int nm, ed *res )
{
    for ( int k = 0; k < nm; k++ ) res[k] = ed_c( 0 );
    for ( int i = 0; i < n; i++ ) {
        const ed *p = rnet_forward( r, X + (size_t) i * r->sz[0] );
        for ( int k = 0; k < nm; k++ ) { ed m = metric_ed( ms[k], r->sz[r->L], p, Y + (size_t) i * r->sz[r->L] ); res[k].v += m.v; res[k].e += m.e; }
    }
    for ( int k = 0; k < nm; k++ ) { double a = fabs( res[k].v ); res[k].v /= n; res[k].e = res[k].e / n + fmin( n, 4096 ) * U24 * ( a / n + res[k].e / n ); }
}

/* ------------------------------------------------------------------ random training problems */
static void train_spec( spec_t *s, int *loss, int maxL, int maxsz )
{
    static const int acts[] = { A_SOFTPLUS, A_SOFTSIGN, A_HARD_SIGMOID, A_LINEAR, A_RELU, A_SIGMOID, A_TANH, A_SIGMOID, A_TANH };
    s->L = rndi( 1, maxL );
    for ( int l = 0; l <= s->L; l++ ) s->sz[l] = chance( 0.3 ) ? rndi( 1, 4 ) : rnd_size( maxsz );
    for ( int l = 0; l < s->L; l++ ) s->act[l] = acts[rndi( 0, 8 )];
    *loss = rndi( 0, L_N - 1 );
    if ( *loss == L_CCE ) s->act[s->L-1] = A_SOFTMAX;
    if ( *loss == L_BCE ) s->act[s->L-1] = A_SIGMOID;
    spec_desc( s );
    if ( maxL > 2 && chance( 0.03 )) { if ( chance( 0.15 )) spec_abyss( s ); else spec_deep( s ); }
}
static void fill_set( int n, int ni, int no, int loss, float *X, float *Y )
{
    for ( int i = 0; i < n; i++ ) {
        for ( int j = 0; j < ni; j++ ) X[(size_t) i * ni + j] = (float) rndn();
        fill_target( Y + (size_t) i * no, no, loss );
    }
    if ( chance( 0.15 )) for ( int j = 0; j < ni; j++ ) if ( chance( 0.6 )) {      /* features of other sizes: the gradients of their weights are as small */
        float f = (float) pow( 10, -rndu() * 11 );
        for ( int i = 0; i < n; i++ ) X[(size_t) i * ni + j] *= f;
    }
}
static optimizer_t *make_opt( neuralnet_t *nn, rule_t *u, int bs, bool shuffle, metric_func *ms, bool progress, char *desc, size_t dl )
{
    optimizer_properties_t op = OPTIMIZER_PROPERTIES( .batchsize = bs, .shuffle = shuffle, .metrics = ms, .progress = progress ? rec_progress : NULL );
    optimizer_t *o = NULL;
    if ( u->form ) switch ( u->kind * 10 + u->form ) {
        case O_SGD * 10 + 1: o = OPTIMIZER( SGD_new( nn, op, SGD_PROPERTIES( ))); break;
        case O_SGD * 10 + 2: o = OPTIMIZER( SGD_new( nn, op, SGD_PROPERTIES( .learning_rate = u->lr0 ))); break;
        case O_SGD * 10 + 3: o = OPTIMIZER( SGD_new( nn, op, SGD_PROPERTIES( .nesterov = u->nesterov, .momentum = u->mom ))); break;
        case O_SGD * 10 + 4: o = OPTIMIZER( SGD_new( nn, op, SGD_PROPERTIES( .decay = u->decay ))); break;
        case O_RMSPROP * 10 + 1: o = OPTIMIZER( RMSprop_new( nn, op, RMSPROP_PROPERTIES( ))); break;
        case O_RMSPROP * 10 + 2: o = OPTIMIZER( RMSprop_new( nn, op, RMSPROP_PROPERTIES( .learning_rate = u->lr0 ))); break;
        case O_RMSPROP * 10 + 3: o = OPTIMIZER( RMSprop_new( nn, op, RMSPROP_PROPERTIES( .nesterov = u->nesterov, .momentum = u->mom ))); break;
        case O_RMSPROP * 10 + 4: o = OPTIMIZER( RMSprop_new( nn, op, RMSPROP_PROPERTIES( .decay = u->decay ))); break;
        case O_ADAGRAD * 10 + 1: case O_ADAGRAD * 10 + 3: o = OPTIMIZER( adagrad_new( nn, op, ADAGRAD_PROPERTIES( ))); break;
        case O_ADAGRAD * 10 + 2: o = OPTIMIZER( adagrad_new( nn, op, ADAGRAD_PROPERTIES( .learning_rate = u->lr0 ))); break;
        case O_ADAGRAD * 10 + 4: o = OPTIMIZER( adagrad_new( nn, op, ADAGRAD_PROPERTIES( .decay = u->decay ))); break;
        case O_ADAM * 10 + 1: o = OPTIMIZER( adam_new( nn, op, ADAM_PROPERTIES( ))); break;
        case O_ADAM * 10 + 2: o = OPTIMIZER( adam_new( nn, op, ADAM_PROPERTIES( .learning_rate = u->lr0 ))); break;
        case O_ADAM * 10 + 3: o = OPTIMIZER( adam_new( nn, op, ADAM_PROPERTIES( .beta_1 = u->b1 ))); break;
        case O_ADAM * 10 + 4: o = OPTIMIZER( adam_new( nn, op, ADAM_PROPERTIES( .weight_decay = u->wd ))); break;
    }
    else switch ( u->kind ) {
        case O_SGD: o = OPTIMIZER( SGD_new( nn, op, SGD_PROPERTIES( .learning_rate = u->lr0, .decay = u->decay, .momentum = u->mom, .nesterov = u->nesterov ))); break;
        case O_RMSPROP: o = OPTIMIZER( RMSprop_new( nn, op, RMSPROP_PROPERTIES( .learning_rate = u->lr0, .rho = u->rho, .decay = u->decay, .momentum = u->mom, .nesterov = u->nesterov ))); break;
        case O_ADAGRAD: o = OPTIMIZER( adagrad_new( nn, op, ADAGRAD_PROPERTIES( .learning_rate = u->lr0, .decay = u->decay ))); break;
        case O_ADAM: o = OPTIMIZER( adam_new( nn, op, ADAM_PROPERTIES( .learning_rate = u->lr0, .beta_1 = u->b1, .beta_2 = u->b2, .weight_decay = u->wd ))); break;
    }
    snprintf( desc, dl, "%s lr %g decay %g momentum %g%s rho %g betas %g %g wd %g batchsize %d%s", opt_names[u->kind], u->lr0, u->decay, u->mom, u->nesterov ? " nesterov" : "", u->rho, u->b1, u->b2, u->wd, bs, shuffle ? " shuffled" : "" );
    return o;
}
static void rule_random( rule_t *u )
{
    memset( u, 0, sizeof *u );
    u->kind = rndi( 0, O_N - 1 );
    u->lr0 = u->kind == O_SGD ? (float)( 0.002 + 0.1 * rndu() * rndu()) : (float)( 0.0005 + 0.02 * rndu());
    if ( chance( 0.15 )) u->lr0 = (float) pow( 10, rndu() * 1.8 - 1 );    /* up to 6 */
    u->decay = chance( 0.4 ) ? (float)( 0.03 * rndu()) : 0;
    u->mom = chance( 0.5 ) ? (float)( chance( 0.5 ) ? 0.9 : 0.95 * rndu()) : 0;
    u->nesterov = chance( 0.5 );
    u->rho = chance( 0.5 ) ? 0.9f : (float)( 0.5 + 0.49 * rndu());
    u->b1 = chance( 0.5 ) ? 0.9f : (float)( 0.95 * rndu()); u->b2 = chance( 0.5 ) ? 0.999f : (float)( 0.6 + 0.39 * rndu());
    u->wd = chance( 0.5 ) ? 0 : (float)( 0.01 * rndu());
    if ( u->kind == O_ADAGRAD || u->kind == O_ADAM ) { u->mom = 0; u->nesterov = false; }
    if ( u->kind == O_ADAM ) u->decay = 0; else u->wd = 0;
    if ( chance( 0.12 )) {      /* some properties are left out: these have the documented default */
        u->form = rndi( 1, 4 );
        if ( u->form != 2 ) u->lr0 = u->kind == O_SGD || u->kind == O_ADAGRAD ? 0.01f : 0.001f;
        if ( u->form != 3 ) { u->mom = 0; u->nesterov = false; u->b1 = 0.9f; }
        if ( u->form != 4 ) u->decay = 0;
        u->rho = 0.9f; u->b2 = 0.999f; if ( u->kind == O_ADAM && u->form != 4 ) u->wd = 1e-4f;
    }
}
/* prefer settings with progress; check the visits of one epoch */
static bool check_visits( int n, int bs, bool shuffle, bool progress, const float *Xs, rnet *r, float *finalpar, int *order )
{
    const char *c = "visits";
    int nb = ( n + bs - 1 ) / bs; if ( bs > n ) nb = 1;
    if ( R.foreign ) { viol( c, "a gradient was computed for a target that is not a row of the training set" ); return false; }
    if ( R.badn ) { viol( c, "the loss was computed for a wrong number of outputs" ); return false; }
    if ( R.overflow || R.calls != (unsigned) n ) { viol( c, "%u gradients computed in an epoch of %d samples", R.calls, n ); return false; }
    unsigned char *seen = calloc( n, 1 ); bool ok = true;
    for ( int i = 0; i < n && ok; i++ ) {
        if ( seen[R.row[i]]++ ) { viol( c, "sample %d of %d was used twice in one epoch", R.row[i], n ); ok = false; }
    }
    free( seen );
    if ( !ok ) return false;
    if ( !shuffle ) for ( int i = 0; i < n; i++ ) if ( R.row[i] / R.bs != i / R.bs ) { viol( "order", "without shuffling sample %d was used in batch %d", R.row[i], i / R.bs ); return false; }
    for ( int i = 0; i < n; i++ ) order[i] = R.row[i];
    if ( R.parchange ) { viol( "batching", "the parameters changed between the gradients of one batch of %d", R.bs ); return false; }
    for ( int b = 0; b + 1 < nb; b++ ) if ( !memcmp( R.par + b * R.np, R.par + (b+1) * R.np, R.np * 4 )) stat_add( "updates_without_visible_change", 1 );
    if ( progress ) {
        if ( R.nprog != (unsigned) nb ) { viol( "progress", "progress was called %u times for %d batches (%d samples, batch size %d)", R.nprog, nb, n, bs ); return false; }
        for ( int b = 0; b < nb; b++ ) {
            int want = (long) (b+1) * R.bs > n ? n : (b+1) * R.bs;
            if ( R.prog[b].x != want || R.prog[b].n != n ) { viol( "progress", "progress %d/%d after batch %d, %d samples done of %d", R.prog[b].x, R.prog[b].n, b, want, n ); return false; }
            if ( R.prog[b].calls != (unsigned) want ) { viol( "progress", "progress %d was reported when %u gradients had been computed", want, R.prog[b].calls ); return false; }
        }
    }
    /* every prediction is the one for the input of the same row */
    neuralnet_t dummy; (void) dummy; (void) finalpar;
    for ( int i = 0; i < n; i++ ) {
        float *p = R.par + ( i / R.bs ) * R.np;
        if ( i % R.bs == 0 ) for ( int l = 0; l < r->L; l++ ) { r->b[l] = p; p += r->sz[l+1]; r->w[l] = p; p += (size_t) r->sz[l] * r->sz[l+1]; }
        if ( n > 400 && i % 7 ) continue;
        const ed *o = rnet_forward( r, Xs + (size_t) R.row[i] * R.ni );
        if ( !ed_usable( o, R.no )) continue;
        stat_add( "predictions_paired", 1 );
        for ( int j = 0; j < R.no; j++ ) if ( !ed_ok( o[j], R.pred[(size_t) i * R.no + j] )) {
            viol( "pairing", "target %d was compared with prediction %.9g for output %d, but its input gives %.9g +- %.2g", R.row[i], R.pred[(size_t) i * R.no + j], j, o[j].v, o[j].e );
            return false;
        }
    }
    return true;
}
static bool check_rule( rule_t *u, rnet *r, int loss, int n, const float *X, const float *Y, const float *finalpar, bool report )
{
    ed *g = calloc( R.np, sizeof(ed) ), *one = calloc( R.np, sizeof(ed) ), *next = calloc( R.np, sizeof(ed) ); double *S = calloc( R.np, sizeof(double) );
    bool ok = true;
    int nb = ( n + R.bs - 1 ) / R.bs;
    for ( int b = 0; b < nb && ok; b++ ) {
        float *par = R.par + b * R.np, *p = par; int cnt = 0;
        for ( int l = 0; l < r->L; l++ ) { r->b[l] = p; p += r->sz[l+1]; r->w[l] = p; p += (size_t) r->sz[l] * r->sz[l+1]; }
        for ( size_t k = 0; k < R.np; k++ ) { g[k] = ed_c( 0 ); S[k] = 0; if ( !( fabs( par[k] ) < 1e4 )) ok = false; }
        if ( !ok ) break;
        for ( int i = b * R.bs; i < (b+1) * R.bs && i < n; i++, cnt++ ) {
            rnet_forward( r, X + (size_t) R.row[i] * R.ni ); rnet_backward( r, loss, Y + (size_t) R.row[i] * R.no, one );
            for ( size_t k = 0; k < R.np; k++ ) { g[k].v += one[k].v; g[k].e += one[k].e; S[k] += fabs( one[k].v ) + one[k].e; }
        }
        for ( size_t k = 0; k < R.np; k++ ) { g[k].v /= cnt; g[k].e = ( g[k].e + (cnt + 2) * U24 * S[k] ) / cnt + 1e-44; }
        bool last = b == nb - 1; const float *obs = last ? finalpar : R.par + (b+1) * R.np;
        rule_step( u, g, par, last, next );
        size_t tight = 0;
        for ( size_t k = 0; k < R.np; k++ ) {
            if ( !isfinite( next[k].v )) { ok = false; break; }
            double step = fabs( next[k].v - par[k] );
            if ( next[k].e <= 0.05 * step + 4 * U24 * fabs( next[k].v )) tight++;
            if ( report && !ed_ok( next[k], obs[k] )) {
                viol( "rule", "step %u of %s: parameter %zu of %zu went from %.9g to %.9g, expected %.9g +- %.2g (gradient %.6g)", b, opt_names[u->kind], k, R.np, par[k], obs[k], next[k].v, next[k].e, g[k].v );
                ok = false; break;
            }
        }
        stat_add( "steps_checked", 1 ); stat_add( "updates_tightly_bounded", tight ); stat_add( "updates_loosely_bounded", R.np - tight );
    }
    free( g ); free( one ); free( next ); free( S );
    return ok;
}

static void check_results( const char *what, const float *res, const ed *ref, const int *ms, int nm )
{
    for ( int k = 0; k < nm; k++ ) {
        if ( ms[k] < 2 && isnan( ref[k].v )) {      /* an error that is not a number does not vanish */
            stat_add( "means_not_a_number", 1 );
            if ( isfinite( res[k] )) { viol( "mean", "%s: result %d (%s) is %.9g, the mean is not a number", what, k, metric_names[ms[k]], res[k] ); return; }
        }
        if ( !isfinite( ref[k].v ) || !isfinite( ref[k].e )) continue;
        if ( fabs( ref[k].v ) > 1e30 ) {            /* sums may overflow here, but what comes out is not small */
            stat_add( "means_that_may_overflow", 1 );
            if ( res[k] < ref[k].v - 2 * ref[k].e - 1e-5 * ref[k].v && res[k] < 3e38 ) { viol( "mean", "%s: result %d (%s) is %.9g, the mean is %.9g +- %.2g", what, k, metric_names[ms[k]], res[k], ref[k].v, ref[k].e ); return; }
            continue;
        }
        stat_add( ref[k].e < 0.02 * fabs( ref[k].v ) + 1e-6 ? "means_tightly_bounded" : "means_loosely_bounded", 1 );
        if ( !( fabs( res[k] - ref[k].v ) <= 2 * ref[k].e + 4 * U24 * fabs( ref[k].v ) + 1e-30 )) {
            viol( "mean", "%s: result %d (%s) is %.9g, the mean is %.9g +- %.2g", what, k, metric_names[ms[k]], res[k], ref[k].v, ref[k].e );
            return;
        }
    }
}

/* modes: visits (C07), rule (C08), results (C06) */
static void case_train( void )
{
    bool visits = !strcmp( h_mode, "visits" ), rule = !strcmp( h_mode, "rule" ), results = !strcmp( h_mode, "results" );
    bool lng = rule && chance( 0.025 );       /* a thousand steps and more */
    spec_t s; int loss; train_spec( &s, &loss, lng || visits ? 2 : 3, lng ? 3 : visits ? 12 : chance( 0.7 ) ? 14 : 40 );
    neuralnet_t *nn = spec_create( &s ); if ( !nn ) { viol( "create", "cannot create" ); return; }
    fill_params( nn ); neuralnet_set_loss( nn, loss_names[loss] );
    rnet r; rnet_init( &r, nn, s.act );
    rule_t u; rule_random( &u ); if ( lng ) u.form = 0; if ( lng && u.decay ) u.decay = (float) pow( 10, -4 - 3 * rndu()); if ( lng ) u.lr0 *= 0.3f;
    rule_init( &u, r.np );
    int ni = s.sz[0], no = s.sz[s.L], threads = chance( 0.4 ) ? 1 : chance( 0.06 ) ? rndi( 9, 70 ) : rndi( 2, 8 );
    int n = visits ? ( chance( 0.15 ) ? rndi( 1, 4 ) : chance( 0.1 ) ? rndi( 300, 1500 ) : rndi( 1, 120 )) : lng ? ( chance( 0.5 ) ? (int[]){ 40, 50, 64, 100, 128 }[rndi( 0, 4 )] : rndi( 40, 120 )) : rndi( 1, 40 );
    if ( visits && n > 300 && chance( 0.2 )) n = rndi( 1500, 7000 );
    int bs; switch ( rndi( 0, 7 )) { case 0: bs = 1; break; case 1: bs = n; break; case 2: bs = n + rndi( 1, 5 ); break; case 3: bs = n > 1 ? n - 1 : 1; break;
        case 4: bs = 1 << rndi( 0, 7 ); break; case 5: bs = chance( 0.2 ) ? 1 << 30 : rndi( 1, n ); break; default: bs = rndi( 1, n < 16 ? n : 16 ); }
    if ( lng ) bs = chance( 0.7 ) ? 1 : rndi( 1, 3 );
    bool huge = results && chance( 0.02 );      /* more samples than any block size */
    if ( huge ) { n = chance( 0.5 ) ? rndi( 200, 3000 ) : rndi( 3000, 20000 ); bs = rndi( n / 8 + 1, n + 1 ); stat_add( "large_training_sets", 1 ); }
    bool shuffle = chance( 0.5 ), progress = chance( 0.8 );
    int nm = chance( 0.2 ) ? 0 : chance( 0.08 ) ? rndi( 9, 40 ) : rndi( 1, 8 ), ms[40]; metric_func mf[41];
    for ( int k = 0; k < nm; k++ ) { ms[k] = rndi( 0, 6 ); mf[k] = get_metric_func( metric_names[ms[k]] ); } mf[nm] = NULL;
    char od[300]; optimizer_t *o = make_opt( nn, &u, bs, shuffle, nm ? mf : NULL, progress, od, sizeof od );
    if ( !o ) { viol( "create", "cannot create optimizer" ); return; }
    if ( !nm ) { nm = 1; ms[0] = loss; }      /* the metric of the loss; names are in the same order */
    loss_func real = nn->loss; R.real = real; nn->loss = rec_loss;
    omp_set_num_threads( threads );
    int epochs = lng ? rndi( 20, 40 ) : huge ? 1 : rule ? rndi( 1, 5 ) : rndi( 1, 4 );
    int oX = chance( 0.5 ) ? 0 : rndi( -1, 31 ), oY = chance( 0.5 ) ? 0 : rndi( -1, 31 );
    gbuf X = gb_new( (size_t) n * ni, oX ), Y = gb_new( (size_t) n * no, oY );
    fill_set( n, ni, no, loss, X.p, Y.p );
    float *Xs = malloc( X.n * 4 ), *Ys = malloc( Y.n * 4 ); memcpy( Xs, X.p, X.n * 4 ); memcpy( Ys, Y.p, Y.n * 4 );
    gb_ro( &X, true ); gb_ro( &Y, true );
    int nv = chance( 0.5 ) ? rndi( 1, huge ? 5000 : 30 ) : 0; gbuf VX = gb_new( (size_t) (nv + 1) * ni, rndi( -1, 15 )), VY = gb_new( (size_t) (nv + 1) * no, rndi( -1, 15 ));
    fill_set( nv, ni, no, loss, VX.p, VY.p ); gb_ro( &VX, true ); gb_ro( &VY, true );
    float *vx = VX.p, *vy = VY.p; bool slice = nv && chance( 0.3 );
    if ( slice ) {         /* a part of the training set (or all of it) validates */
        nv = chance( 0.3 ) ? n : rndi( 1, n ); int k = chance( 0.5 ) ? 0 : rndi( 0, n - nv );
        vx = X.p + (size_t) k * ni; vy = Y.p + (size_t) k * no; stat_add( "validated_on_training_data", 1 );
    }
    int style = nv ? 0 : rndi( 0, 3 );
    float *finalpar = malloc( r.np * 4 ), *oldpar = malloc( r.np * 4 ); int *order = malloc( n * sizeof(int) ), *old = malloc( n * sizeof(int) ); bool ok = true; int curn = n, different = 0;
    /* somebody else who trains in between */
    optimizer_t *o2 = NULL; neuralnet_t *nn2 = NULL; float X2[64], Y2[64], res2[2]; int n2 = rndi( 1, 64 );
    if ( chance( 0.3 )) {
        nn2 = neuralnet_create( 1, (int[]){ 1, 1 }, (char*[]){ "linear", NULL } ); nn2->layer[0].weight[0] = 0.5f; nn2->layer[0].bias[0] = 0; neuralnet_set_loss( nn2, "mse" );
        for ( int i = 0; i < 64; i++ ) { X2[i] = (float) rndn(); Y2[i] = (float) rndn(); }
        optimizer_properties_t op = OPTIMIZER_PROPERTIES( .batchsize = rndi( 1, 64 ), .shuffle = chance( 0.5 ), .progress = NULL );
        switch ( rndi( 0, 3 )) { case 0: o2 = OPTIMIZER( SGD_new( nn2, op, SGD_PROPERTIES( .momentum = 0.5f ))); break; case 1: o2 = OPTIMIZER( adam_new( nn2, op, ADAM_PROPERTIES() )); break;
            case 2: o2 = OPTIMIZER( RMSprop_new( nn2, op, RMSPROP_PROPERTIES() )); break; default: o2 = OPTIMIZER( adagrad_new( nn2, op, ADAGRAD_PROPERTIES() )); }
    }
    for ( int e = 0; e < epochs && ok; e++ ) {
        if ( o2 && chance( 0.7 )) optimizer_run_epoch( o2, n2, X2, Y2, 0, NULL, NULL, res2 );
        int prevn = curn;
        if ( e && chance( 0.15 )) curn = rndi( 1, n );          /* another training set size in the next epoch */
        if ( e && chance( 0.12 )) {                             /* other data in the same place */
            gb_ro( &X, false ); gb_ro( &Y, false ); fill_set( n, ni, no, loss, X.p, Y.p ); memcpy( Xs, X.p, X.n * 4 ); memcpy( Ys, Y.p, Y.n * 4 ); gb_ro( &X, true ); gb_ro( &Y, true );
        }
        if ( nv && !slice && e && chance( 0.12 )) { gb_ro( &VX, false ); gb_ro( &VY, false ); fill_set( nv, ni, no, loss, VX.p, VY.p ); gb_ro( &VX, true ); gb_ro( &VY, true ); }
        cur( "%s n %d (epoch %d) loss %s net %s threads %d validation %d", od, curn, e, loss_names[loss], s.desc, threads, nv );
        gbuf res = gb_new( nm * ( nv ? 2 : 1 ), rndi( -1, 15 ));
        rec_start( nn, curn, X.p, Y.p, bs, r.np );
        par_copy( nn, oldpar );
        scribble( rndi( 0, 2 ));
        optimizer_run_epoch( o, curn, X.p, Y.p, style == 2 ? 7 : nv, style == 1 || style == 2 ? NULL : vx, style == 3 || style == 2 ? NULL : vy, res.p );
        par_copy( nn, finalpar );
        bool sane = true; for ( size_t k = 0; k < r.np; k++ ) if ( !( fabs( finalpar[k] ) < 1e4 )) sane = false;
        ok = R.calls == (unsigned) curn && !R.overflow && !R.foreign && !R.parchange;
        if ( visits ) {
            ok = check_visits( curn, bs, shuffle, progress, Xs, &r, finalpar, order );
            if ( ok && e && curn == prevn && curn >= 20 && bs <= curn / 4 ) {
                bool same = true; int k = R.bs;
                for ( int b = 0; b * k < curn && same; b++ ) {    /* compare as sets per batch: the order within a batch is not ours to judge */
                    for ( int i = b*k; i < (b+1)*k && i < curn && same; i++ ) { bool f = false; for ( int j = b*k; j < (b+1)*k && j < curn; j++ ) if ( old[j] == order[i] ) f = true; same = f; }
                }
                if ( shuffle && same ) { viol( "shuffle", "two epochs in a row used the %d samples in the same order although shuffling is on", curn ); ok = false; }
                different += !same;
            }
            if ( ok && shuffle && curn >= 50 && bs <= curn / 8 ) {         /* how far the position in this epoch tells the one in the file, or in the last epoch */
                for ( int k = 0; k < 2 && ok; k++ ) {
                    if ( k && !( e && curn == prevn )) break;
                    int *pos = malloc( curn * sizeof *pos ); double m1 = 0, m2 = 0, v1 = 0, v2 = 0, c = 0; int stay = 0;
                    if ( k ) for ( int i = 0; i < curn; i++ ) pos[old[i]] = i / R.bs; else for ( int i = 0; i < curn; i++ ) pos[i] = i / R.bs;
                    for ( int i = 0; i < curn; i++ ) { m1 += pos[order[i]]; m2 += i / R.bs; stay += pos[order[i]] == i / R.bs; }
                    m1 /= curn; m2 /= curn;
                    for ( int i = 0; i < curn; i++ ) { double a = pos[order[i]] - m1, b = i / R.bs - m2; v1 += a * a; v2 += b * b; c += a * b; }
                    double z = fabs( c ) / sqrt( v1 * v2 ) * sqrt( curn - 1.0 );
                    if ( z > 7 || stay > R.bs + 8 * sqrt( R.bs ) + 14 ) { viol( "shuffle", "shuffled, %d of %d samples are in the batch (of %d) they had %s, and their places are correlated (%.1f standard deviations)", stay, curn, R.bs, k ? "in the last epoch" : "without shuffling", z ); ok = false; }
                    free( pos ); stat_add( "shuffles_tested_for_randomness", 1 );
                }
            }
            memcpy( old, order, curn * sizeof(int) );
            if ( ok && memcmp( R.par, oldpar, r.np * 4 ) && !( u.mom > 0 && u.nesterov )) { viol( "batching", "the parameters had changed before the first gradient of the epoch" ); ok = false; }
        }
        if ( ok && rule ) {   /* the velocity is applied before the first gradient of an epoch as well (Nesterov), nothing else is */
            bool interim = ( u.kind == O_SGD || u.kind == O_RMSPROP ) && u.mom > 0 && u.nesterov;
            for ( size_t k = 0; k < r.np && ok; k++ ) {
                ed q = ed_c( oldpar[k] ); if ( interim ) q = ed_add( q, ed_mul( ed_c( u.mom ), u.v[k] ));
                if ( !isfinite( q.v )) break;
                if ( interim ? !ed_ok( q, R.par[k] ) : R.par[k] != oldpar[k] ) {
                    viol( "rule", "at the first gradient of epoch %d of %s parameter %zu is %.9g, expected %.9g +- %.2g (%.9g at the end of the last one)", e, opt_names[u.kind], k, R.par[k], q.v, q.e, oldpar[k] ); ok = false; }
            }
            stat_add( "epoch_starts_checked", 1 );
        }
        if ( ok && ( rule || ( visits && u.kind == O_SGD && n < 200 ))) ok = check_rule( &u, &r, loss, curn, Xs, Ys, finalpar, true );
        if ( results && ok && sane ) {
            float *p = finalpar; for ( int l = 0; l < r.L; l++ ) { r.b[l] = p; p += r.sz[l+1]; r.w[l] = p; p += (size_t) r.sz[l] * r.sz[l+1]; }
            ed ref[40];
            mean_metrics( &r, curn, Xs, Ys, ms, nm, ref ); check_results( "training set", res.p, ref, ms, nm );
            if ( nv ) { mean_metrics( &r, nv, vx, vy, ms, nm, ref ); check_results( "validation set", res.p + nm, ref, ms, nm ); }
        }
        if ( !gb_intact( &res )) { viol( "overwrite", "memory beside the results was written" ); ok = false; }
        rec_end(); gb_free( &res );
        if ( !sane ) { stat_add( "diverged", 1 ); ok = false; }
        h_evals++;
    }
    if ( memcmp( X.p, Xs, X.n * 4 ) || memcmp( Y.p, Ys, Y.n * 4 )) viol( "data", "training data was modified" );
    cover( h_hash( (int[]){ n, bs, shuffle, progress, threads, nv, u.kind, u.nesterov, u.mom > 0, u.decay > 0 }, 40, spec_hash( &s )));
    if ( h_case % 41 == 0 ) sample( "%s, %d samples, %d epochs, %d threads, loss %s, net %s", od, n, epochs, threads, loss_names[loss], s.desc );
    nn->loss = real;
    if ( o2 ) { optimizer_free( o2 ); neuralnet_free( nn2 ); }
    if ( lng ) { stat_add( "long_runs", 1 ); stat_add( "steps_of_long_runs", u.it ); if ( u.it > 1000 ) stat_add( "long_runs_over_1000_steps", 1 ); }
    optimizer_free( o ); neuralnet_free( nn ); rnet_free( &r ); rule_free( &u );
    gb_free( &X ); gb_free( &Y ); gb_free( &VX ); gb_free( &VY ); free( Xs ); free( Ys ); free( finalpar ); free( oldpar ); free( order ); free( old );
}

/* C25: what training tells the progress display. mode reports */
static struct { int n; long calls, bad, full; int last, bx, bn; } P;
static void watch_progress( int x, int n, const char *fmt, ... )
{
    (void) fmt; P.calls++;
    if ( n != P.n || x <= P.last || x > n ) { if ( !P.bad++ ) { P.bx = x; P.bn = n; } }
    if ( x == n ) P.full++;
    P.last = x;
}
static void case_reports( void )
{
    spec_t s; int loss; train_spec( &s, &loss, 2, 8 );
    neuralnet_t *nn = spec_create( &s ); if ( !nn ) { viol( "create", "cannot create" ); return; }
    fill_params( nn ); neuralnet_set_loss( nn, loss_names[loss] );
    int ni = s.sz[0], no = s.sz[s.L], n = chance( 0.3 ) ? rndi( 1, 4 ) : rndi( 1, 400 );
    float *X = malloc( (size_t) n * ni * 4 ), *Y = malloc( (size_t) n * no * 4 ), res[2]; fill_set( n, ni, no, loss, X, Y );
    int bs = chance( 0.3 ) ? 1 : chance( 0.2 ) ? n + rndi( 0, 3 ) : chance( 0.1 ) ? 1 << 30 : rndi( 1, n );
    rule_t u; rule_random( &u ); u.np = 0;
    optimizer_properties_t op = OPTIMIZER_PROPERTIES( .batchsize = bs, .shuffle = chance( 0.5 ), .metrics = NULL, .progress = watch_progress );
    optimizer_t *o = NULL;
    switch ( u.kind ) {
        case O_SGD: o = OPTIMIZER( SGD_new( nn, op, SGD_PROPERTIES( .learning_rate = u.lr0, .decay = u.decay, .momentum = u.mom, .nesterov = u.nesterov ))); break;
        case O_RMSPROP: o = OPTIMIZER( RMSprop_new( nn, op, RMSPROP_PROPERTIES( .learning_rate = u.lr0, .momentum = u.mom, .nesterov = u.nesterov ))); break;
        case O_ADAGRAD: o = OPTIMIZER( adagrad_new( nn, op, ADAGRAD_PROPERTIES( .learning_rate = u.lr0 ))); break;
        default: o = OPTIMIZER( adam_new( nn, op, ADAM_PROPERTIES( .learning_rate = u.lr0 ))); break;
    }
    omp_set_num_threads( rndi( 1, 4 ));
    for ( int e = 0; e < rndi( 1, 3 ); e++ ) {
        int m = e && chance( 0.3 ) ? rndi( 1, n ) : n;
        memset( &P, 0, sizeof P ); P.n = m;
        cur( "an epoch of %d samples in batches of %d with %s", m, bs, opt_names[u.kind] );
        optimizer_run_epoch( o, m, X, Y, 0, NULL, NULL, res );
        if ( P.bad ) viol( "reports", "training reported %d of %d samples done (%ld such reports; %d samples in batches of %d)", P.bx, P.bn, P.bad, m, bs );
        else if ( P.full != 1 || P.last != m ) viol( "reports", "the last report of an epoch of %d samples was %d (after %ld reports)", m, P.last, P.calls );
        stat_add( "reports_of_training", P.calls ); h_evals++;
        cover( h_hash( (int[]){ m, bs, u.kind }, 12, 25 ));
    }
    optimizer_free( o ); neuralnet_free( nn ); free( X ); free( Y );
}

/* C06: evaluate() itself */
static void case_evaluate( void )
{
    spec_t s; 
    if ( chance( 0.15 )) { s.L = rndi( 1, 2 ); for ( int l = 0; l <= s.L; l++ ) s.sz[l] = rndi( 1, 700 ); for ( int l = 0; l < s.L; l++ ) s.act[l] = rndi( A_RELU, A_TANH ); spec_desc( &s ); }
    else spec_random( &s, 4, 40, true );
    int k = rndi( 0, 3 ); if ( k == 0 ) s.act[s.L-1] = A_SOFTMAX; else if ( k < 3 ) s.act[s.L-1] = A_SIGMOID; spec_desc( &s );
    neuralnet_t *nn = spec_create( &s ); fill_params( nn );
    rnet r; rnet_init( &r, nn, s.act );
    int ni = s.sz[0], no = s.sz[s.L], threads = chance( 0.05 ) ? rndi( 9, 70 ) : rndi( 1, 8 ), n = chance( 0.1 ) ? 1 : chance( 0.3 ) ? rndi( 1, 12 ) : chance( 0.1 ) && r.np < 300 ? rndi( 1000, 5000 ) : rndi( 1, 200 );
    if ( r.np > 20000 ) n = rndi( 1, 20 );
    if ( r.np <= 12 && chance( 0.15 ) || h_case == 11 ) {             /* more samples than 16 bits can count */
        if ( r.np > 12 ) { rnet_free( &r ); neuralnet_free( nn ); s.L = 1; s.sz[0] = rndi( 1, 3 ); s.sz[1] = rndi( 1, 2 ); s.act[0] = k == 0 ? A_SOFTMAX : A_SIGMOID; spec_desc( &s ); nn = spec_create( &s ); fill_params( nn ); rnet_init( &r, nn, s.act ); ni = s.sz[0]; no = s.sz[1]; }
        n = rndi( 65000, 140000 ); stat_add( "evaluations_of_more_than_65000_samples", 1 );
    }
    int nm = chance( 0.05 ) ? rndi( 10, 70 ) : rndi( 1, 9 ), ms[70]; metric_func mf[71];
    for ( int i = 0; i < nm; i++ ) { ms[i] = rndi( 0, 6 ); mf[i] = get_metric_func( metric_names[ms[i]] ); } mf[nm] = NULL;
    int oX = rndi( -1, 31 ), oY = rndi( -1, 31 );
    gbuf X = gb_new( (size_t) n * ni, oX ), Y = gb_new( (size_t) n * no, oY ), res = gb_new( nm, rndi( -1, 15 ));
    for ( int i = 0; i < n; i++ ) { fill_input( X.p + (size_t) i * ni, ni ); fill_target( Y.p + (size_t) i * no, no, k == 0 ? L_CCE : k < 3 ? L_BCE : L_MAPE ); }
    if ( chance( 0.03 )) Y.p[rndi( 0, (int) Y.n - 1 )] *= (float) pow( 10, rndi( 10, 22 ));      /* one error beyond all others */
    bool missing = chance( 0.02 ); if ( missing ) Y.p[rndi( 0, (int) Y.n - 1 )] = NAN;
    gb_ro( &X, true ); gb_ro( &Y, true );
    float **snap = params_snapshot( nn );
    cur( "evaluate %s with %d samples, %d metrics, %d threads", s.desc, n, nm, threads );
    omp_set_num_threads( threads );
    scribble( rndi( 0, 2 ));
    evaluate( nn, n, X.p, Y.p, mf, res.p );
    ed ref[70]; mean_metrics( &r, n, X.p, Y.p, ms, nm, ref );
    bool fin = true; for ( int i = 0; i < nm; i++ ) fin = fin && ( isfinite( ref[i].e ) || ( missing && isnan( ref[i].v )));
    if ( fin ) check_results( "evaluate", res.p, ref, ms, nm );
    if ( !gb_intact( &res ) || !gb_intact( &X ) || !gb_intact( &Y )) viol( "overwrite", "memory beside the results was written" );
    if ( !params_same( nn, snap )) viol( "params", "evaluate changed the network" );
    cover( h_hash( (int[]){ n, threads, nm, oX, oY }, 20, h_hash( ms, nm * sizeof(int), spec_hash( &s ))));
    if ( h_case % 97 == 0 ) sample( "evaluate %s: %d samples, %d metrics, %d threads", s.desc, n, nm, threads );
    params_free( snap, s.L ); rnet_free( &r ); neuralnet_free( nn ); gb_free( &X ); gb_free( &Y ); gb_free( &res );
    h_evals++;
}

/* data sets of more numbers than an int can count */
static int big_kind;
static void case_big( void )
{
    int which = h_case % 3;      /* 0: many inputs; 1: many outputs; 2: more than 2^24 samples */
    spec_t s = { .L = 1, .sz = { which == 0 ? 60000 : 1, which == 1 ? 60000 : 1 }, .act = { A_LINEAR } }; spec_desc( &s );
    int n = which == 2 ? 40000000 : 36500, ni = s.sz[0], no = s.sz[1];
    neuralnet_t *nn = spec_create( &s ); fill_params( nn );
    if ( which == 2 ) { nn->layer[0].weight[0] = 1; nn->layer[0].bias[0] = 0; }
    bigmap X = big_new( (size_t) n * ni, which == 0 ? 4099 : 67 ), Y = big_new( (size_t) n * no, which == 1 ? 4099 : 61 );
    for ( size_t i = 0; i < X.period; i++ ) X.p[i] = which == 2 ? ( i % 7 < 4 ? 0.9f : 0.1f ) : (float) rndn();
    for ( size_t i = 0; i < Y.period; i++ ) Y.p[i] = which == 2 ? 1 : (float) rndn();
    cur( "evaluate %s with %d samples", s.desc, n );
    omp_set_num_threads( which == 2 ? 1 : 8 );
    float res[3] = { -1, -1, -1 }; double ref[2] = { 0, 0 };
    metric_func mf[] = { get_metric_func( "mse" ), get_metric_func( "binary_accuracy" ), NULL };
    evaluate( nn, n, X.p, Y.p, mf, res );
    if ( which == 2 ) {
        for ( size_t i = 0; i < (size_t) n; i++ ) { double p = X.p[i % X.period]; ref[1] += p > 0.5; ref[0] += ( p - 1 ) * ( p - 1 ); }
        for ( int k = 0; k < 2; k++ ) if ( !( fabs( res[k] - ref[k] / n ) <= 5e-4 * fabs( ref[k] / n ))) viol( "many", "mean %d over %d samples is %.9g instead of %.9g", k, n, res[k], ref[k] / n );
    } else {
        double all = 0;
        #pragma omp parallel for reduction(+:all)
        for ( int i = 0; i < n; i++ ) {
            const float *x = X.p + (size_t) i * ni % X.period, *t = Y.p + (size_t) i * no % Y.period; double e = 0;
            if ( which == 0 ) { double z = nn->layer[0].bias[0]; for ( int j = 0; j < ni; j++ ) z += (double) x[j] * nn->layer[0].weight[j]; e = ( z - t[0] ) * ( z - t[0] ); }
            else { for ( int j = 0; j < no; j++ ) { double d = nn->layer[0].bias[j] + (double) x[0] * nn->layer[0].weight[j] - t[j]; e += d * d; } e /= no; }
            all += e;
        }
        double tol = which == 0 ? 1e-5 : 1e-6;     /* a wrong offset for the last rows gives other rows */
        (void) tol;
        if ( !( fabs( res[0] - all / n ) <= 3e-4 * all / n )) viol( "big", "mean squared error over %d samples is %.9g instead of %.9g", n, res[0], all / n );
    }
    stat_add( "numbers_in_data_sets", (uint64_t) n * ( ni + no ));
    cover( which + 77 ); h_evals++;
    big_free( &X ); big_free( &Y ); neuralnet_free( nn ); (void) big_kind;
}
/* training on more numbers than an unsigned can count: do the samples at the end get their own data? */
static struct { const float *X, *Y; const float *w; float b; size_t n, period; unsigned bad, seen; loss_func real; size_t ni; } BT;
static void big_loss( const unsigned int n, const float *y_pred, const float *y_true, float *loss )
{
    size_t row = y_true - BT.Y;
    if ( y_true < BT.Y || row >= BT.n ) __atomic_add_fetch( &BT.bad, 1, __ATOMIC_RELAXED );
    else if ( row * BT.ni >= 0x7fff0000ull && row % 5 == 0 ) {
        double z = BT.b, S = 0; const float *x = BT.X + row * BT.ni;
        for ( size_t j = 0; j < BT.ni; j++ ) { z += (double) x[j] * BT.w[j]; S += fabs( x[j] * BT.w[j] ); }
        if ( !( fabs( z - y_pred[0] ) <= 1e-5 * S )) __atomic_add_fetch( &BT.bad, 1, __ATOMIC_RELAXED );
        __atomic_add_fetch( &BT.seen, 1, __ATOMIC_RELAXED );
    }
    BT.real( n, y_pred, y_true, loss );
}
static void case_bigtrain( void )
{
    spec_t s = { .L = 1, .sz = { 60000, 1 }, .act = { A_LINEAR } }; spec_desc( &s );
    int n = h_case % 2 ? 72000 : 36500, ni = s.sz[0];
    neuralnet_t *nn = spec_create( &s ); fill_params( nn ); neuralnet_set_loss( nn, "mse" );
    bigmap X = big_new( (size_t) n * ni, 4099 ); float *Y = calloc( n, 4 );
    for ( size_t i = 0; i < X.period; i++ ) X.p[i] = (float) rndn();
    cur( "train %s with %d samples", s.desc, n );
    omp_set_num_threads( 8 );
    optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .batchsize = 1 << 20, .shuffle = false, .progress = NULL, .metrics = METRIC_LIST( get_metric_func( "mse" ))), SGD_PROPERTIES( .learning_rate = 1e-9f )));
    BT.X = X.p; BT.Y = Y; BT.n = n; BT.ni = ni; BT.w = nn->layer[0].weight; BT.b = nn->layer[0].bias[0]; BT.real = nn->loss; BT.bad = BT.seen = 0;
    nn->loss = big_loss; float res[2];
    optimizer_run_epoch( o, n, X.p, Y, 0, NULL, NULL, res );
    nn->loss = BT.real;
    if ( BT.bad ) viol( "big", "%u of %u samples beyond the first 2^31 numbers were not predicted from their own input", BT.bad, BT.seen );
    stat_add( "numbers_in_data_sets", (uint64_t) n * ni ); stat_add( "samples_beyond_2_31", BT.seen );
    cover( n ); h_evals++;
    optimizer_free( o ); big_free( &X ); free( Y ); neuralnet_free( nn );
}

int main( int argc, char **argv )
{
    h_init( argc, argv ); heap_poison(); h_quiet();
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c );
        if ( !strcmp( h_mode, "reports" )) case_reports();
        else if ( !strcmp( h_mode, "evaluate" )) case_evaluate();
        else if ( !strcmp( h_mode, "big" )) case_big();
        else if ( !strcmp( h_mode, "bigtrain" )) case_bigtrain();
        else case_train();
    }
    h_finish();
    return 0;
}
