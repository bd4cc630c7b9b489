/* C19, C20, C21, C25: callbacks on scripted histories, and the progress bar on a terminal */
#include "h.h"
#include "ref.h"
#include "acct.h"
#include "SGD.h"
#include "adam.h"
#include "RMSprop.h"
#include "adagrad.h"
#include "metrics.h"
#include "callback.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "logger.h"
#include "progress.h"
#include <sys/ioctl.h>
#include <termios.h>

static const char *mnames[] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_accuracy", "categorical_accuracy", "categorical_crossentropy", "binary_crossentropy" };
#define NM ((int)( sizeof mnames / sizeof *mnames ))
static float own_metric( unsigned int n, const float *y_pred, const float *y_real ) { (void) n; return y_pred[0] - y_real[0]; }      /* somebody's own metric */
typedef struct { neuralnet_t *nn; optimizer_t *opt; metric_func ml[70]; int m[70], nm; } world;
static void w_new_( world *w, int maxm, bool own )
{
    spec_t s; memset( &s, 0, sizeof s ); spec_random( &s, 3, 20, false );
    w->nn = spec_create( &s ); fill_params( w->nn ); neuralnet_set_loss( w->nn, "mean_squared_error" );
    w->nm = rndi( 1, maxm );
    for ( int i = 0; i < w->nm; i++ ) { w->m[i] = rndi( 0, NM - 1 ); w->ml[i] = get_metric_func( mnames[w->m[i]] ); if ( !w->ml[i] ) { fprintf( stderr, "no metric %s\n", mnames[w->m[i]] ); exit( 3 ); } }
    if ( own ) for ( int i = 0; i < w->nm; i++ ) if ( chance( 0.3 )) w->ml[i] = own_metric;
    w->ml[w->nm] = NULL;
    optimizer_properties_t p = OPTIMIZER_PROPERTIES( .batchsize = 4, .metrics = w->ml, .progress = NULL );
    switch ( rndi( 0, 3 )) {
        case 0: w->opt = OPTIMIZER( SGD_new( w->nn, p, SGD_PROPERTIES( ))); break;
        case 1: w->opt = OPTIMIZER( adam_new( w->nn, p, ADAM_PROPERTIES( ))); break;
        case 2: w->opt = OPTIMIZER( RMSprop_new( w->nn, p, RMSPROP_PROPERTIES( ))); break;
        default: w->opt = OPTIMIZER( adagrad_new( w->nn, p, ADAGRAD_PROPERTIES( ))); break;
    }
}
static void w_new( world *w, int maxm ) { w_new_( w, maxm, false ); }
static void w_free( world *w ) { optimizer_free( w->opt ); neuralnet_free( w->nn ); }
/* histories of one score: every style has plateaus, ties, strict and tiny improvements */
static int hist( float *v, int n, bool greater, int patience )
{
    int style = rndi( 0, 6 ); float best = (float) rndn() * ( chance( 0.3 ) ? 1e6f : 1 ); int since = 0;
    float dir = greater ? 1 : -1;
    for ( int i = 0; i < n; i++ ) {
        bool imp;
        switch ( style ) {
            case 0: imp = chance( 0.5 ); break;
            case 1: imp = since >= patience; break;                        /* at the last moment, always */
            case 2: imp = since >= patience && chance( 0.8 ); break;
            case 3: imp = true; break;
            case 4: imp = chance( 1.5 / ( patience + 2 )); break;
            default: imp = chance( 0.2 ); break;
        }
        if ( i == 0 ) v[i] = best;
        else if ( imp ) { best = chance( 0.01 ) && isfinite( best ) ? dir * INFINITY : !isfinite( best ) ? best : chance( 0.5 ) ? nextafterf( best, dir * 3e37f ) : best + dir * (float)( rndu() + 1e-3 ) * fmaxf( 1, fabsf( best )); v[i] = best; since = 0; }
        else {
            int k = rndi( 0, 9 ); since++;
            v[i] = k < 3 ? best : k == 3 ? nextafterf( best, -dir * 3e37f ) : k == 4 ? NAN : k == 5 ? -dir * INFINITY : best - dir * (float) rndu() * 5;
            if ( best == 0 && k < 3 ) v[i] = -best;
        }
        if ( style == 6 ) v[i] = best = (float) rndi( -3, 3 );               /* many ties */
    }
    int lead = 0;
    if ( chance( 0.25 ) && patience > 0 ) { lead = rndi( 1, patience < 4 ? patience : 4 ); if ( lead > n ) lead = n; for ( int i = 0; i < lead; i++ ) v[i] = chance( 0.5 ) ? NAN : -dir * INFINITY; if ( lead < n ) v[lead] = (float) rndn(); }
    return style * 2 + ( lead > 0 );
}
static bool better( bool greater, bool have, float best, float s ) { return !isnan( s ) && ( have ? ( greater ? s > best : s < best ) : isfinite( s )); }
static void fill_results( float *r, int nr ) { for ( int i = 0; i < nr; i++ ) r[i] = chance( 0.5 ) ? (float) rndn() : (float)( rndn() * 1e-3 * rndi( 1, 1000000 )); }
static void case_early( long c )
{
    world w; w_new( &w, 6 );
    bool valid = chance( 0.5 ), greater = chance( 0.5 ); int nr = w.nm * ( 1 + valid );
    int mon = chance( 0.4 ) ? -1 : rndi( 0, nr - 1 ), patience = chance( 0.7 ) ? rndi( 0, 6 ) : chance( 0.85 ) ? rndi( 0, 60 ) : chance( 0.85 ) ? rndi( 100, 1200 ) : chance( 0.6 ) ? rndi( 32760, 66000 ) : INT_MAX - ( chance( 0.6 ) ? 0 : rndi( 1, 1000 ));
    int idx = mon < 0 ? ( valid ? w.nm : 0 ) : mon, form = rndi( 0, 3 );
    if ( form == 1 ) { mon = -1; idx = valid ? w.nm : 0; greater = false; patience = 10; }
    if ( form == 2 ) { greater = false; }
    earlystopping_t *es = form == 1 ? earlystopping_new( EARLYSTOPPING_SETTINGS( )) : form == 2 ? earlystopping_new( EARLYSTOPPING_SETTINGS( .patience = patience, .monitor_idx = mon )) :
        earlystopping_new( EARLYSTOPPING_SETTINGS( .patience = patience, .monitor_idx = mon, .greater_is_better = greater ));
    scribble( c % 3 );
    int n = rndi( 1, patience > 70000 ? 3000 : 3 * patience + 30 ); float *v = malloc( n * sizeof *v );
    int style = hist( v, n, greater, patience > 100000 ? 100000 : patience );
    cur( "patience %d, monitored %d of %d metrics, %s, %s is better, history style %d, %d epochs", patience, mon, w.nm, valid ? "validation" : "no validation", greater ? "greater" : "smaller", style, n );
    bool have = false, stopped = false; float best = 0; int fails = 0, e;
    if ( earlystopping_do_stop( es )) viol( "early", "told to stop before the first epoch" );
    for ( e = 0; e < n; e++ ) {
        gbuf r = gb_new( nr, rndi( -1, 3 )); fill_results( r.p, nr ); r.p[idx] = v[e]; gb_ro( &r, true );
        callback_run( CALLBACK( es ), w.opt, r.p, valid );
        if ( !gb_intact( &r )) viol( "overwrite", "the results were changed" );
        gb_free( &r );
        if ( better( greater, have, best, v[e] )) { have = true; best = v[e]; fails = 0; } else fails++;
        bool stop = earlystopping_do_stop( es ), expect = fails > patience;
        if ( stop != expect ) { viol( stop ? "early" : "late", "epoch %d (score %.9g, best %.9g, %d without improvement): %s", e + 1, v[e], best, fails, stop ? "told to stop" : "not told to stop" ); break; }
        if ( stop ) { stopped = true; break; }
    }
    if ( stopped ) for ( int more = rndi( 0, 8 ), i = 0; i < more; i++ ) {        /* somebody who looks only later */
        float x = chance( 0.5 ) ? best + ( greater ? 1 : -1 ) * (float)( rndu() + 1e-3 ) * fmaxf( 1, fabsf( best )) : (float) rndn();
        gbuf r = gb_new( nr, rndi( -1, 3 )); fill_results( r.p, nr ); r.p[idx] = x; gb_ro( &r, true );
        callback_run( CALLBACK( es ), w.opt, r.p, valid ); gb_free( &r );
        if ( !earlystopping_do_stop( es )) { viol( "late", "told to stop in epoch %d (patience %d), but no longer after epoch %d (score %.9g, best %.9g)", e + 1, patience, e + 2 + i, x, best ); break; }
        stat_add( "epochs_after_the_stop", 1 );
    }
    stat_add( stopped ? "stopped" : "ran_to_the_end", 1 ); stat_add( "epochs", e );
    cover( h_hash( (int[]){ patience, mon, w.nm, valid, greater, style, stopped ? e : -1 }, 28, 0 ));
    if ( c % 499 == 0 ) sample( "%s -> %s after %d", h_cur, stopped ? "stopped" : "not stopped", e );
    if ( earlystopping_do_stop( NULL )) viol( "early", "no early stopping at all told to stop" );
    free( v ); callback_free( CALLBACK( es )); w_free( &w ); h_evals++;
}
static bool net_is( const char *file, const neuralnet_t *nn, float **snap, char *why )
{
    neuralnet_t *m = neuralnet_load( file ); if ( !m ) { strcpy( why, "it cannot be loaded" ); return false; }
    bool ok = m->n_layers == nn->n_layers; strcpy( why, "it has another number of layers" );
    for ( int i = 0; ok && i < nn->n_layers; i++ ) if ( m->layer[i].n_input != nn->layer[i].n_input || m->layer[i].n_output != nn->layer[i].n_output || m->layer[i].activation_func != nn->layer[i].activation_func ) { ok = false; strcpy( why, "it holds other layers" ); }
    if ( ok && !params_same( m, snap )) { ok = false; strcpy( why, "it holds other parameters" ); }
    neuralnet_free( m ); return ok;
}
static void mutate_net( neuralnet_t *nn )
{
    for ( int l = 0; l < nn->n_layers; l++ ) { int k = nn->layer[l].n_input * nn->layer[l].n_output; for ( int i = 0; i < k; i++ ) if ( chance( 0.5 )) nn->layer[l].weight[i] += (float) rndn() * 0.1f; for ( int i = 0; i < nn->layer[l].n_output; i++ ) nn->layer[l].bias[i] += (float) rndn(); }
}
static int nfiles( const char *d ) { int k = 0; DIR *q = opendir( d ); struct dirent *e; while ( q && ( e = readdir( q ))) if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) && strcmp( e->d_name, "sub" )) k++; if ( q ) closedir( q ); return k; }
static void clean( void )
{
    static const char *ds[] = { ".", "sub" }; char p[600];
    for ( int i = 0; i < 2; i++ ) { DIR *q = opendir( ds[i] ); struct dirent *e; while ( q && ( e = readdir( q ))) if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) && strcmp( e->d_name, "sub" )) { snprintf( p, sizeof p, "%s/%s", ds[i], e->d_name ); unlink( p ); } if ( q ) closedir( q ); }
}
static void case_checkpoint( long c )
{
    static const char *fn[] = { "model.npz", "best%d.npz", "100%.npz", "%s%s%s", "sub/x.npz", "a b.npz", "%n", "%%", "x", "./dot.npz", "ø.npz" };
    world w; w_new( &w, 5 );
    bool valid = chance( 0.5 ), greater = chance( 0.5 ), verbose = chance( 0.3 ); int nr = w.nm * ( 1 + valid );
    int mon = chance( 0.4 ) ? -1 : rndi( 0, nr - 1 ), f = rndi( 0, 11 ), form = rndi( 0, 3 );
    static char lname[200]; int ll = rndi( 20, 128 );       /* names of up to the 128 characters that are allowed */
    for ( int i = 0; i < ll; i++ ) lname[i] = "abcdefghij klm%ds_-."[rndi( 0, 19 )];
    strcpy( lname + ll - 4, ".npz" ); lname[0] = 'L';
    const char *name = f == 11 ? NULL : chance( 0.2 ) ? lname : fn[f];
    if ( form == 1 ) { mon = -1; greater = false; verbose = false; }
    int idx = mon < 0 ? ( valid ? w.nm : 0 ) : mon;
    modelcheckpoint_t *cp = form == 1 ? modelcheckpoint_new( MODELCHECKPOINT_SETTINGS( .filename = name )) : modelcheckpoint_new( MODELCHECKPOINT_SETTINGS( .filename = name, .monitor_idx = mon, .greater_is_better = greater, .verbose = verbose ));
    scribble( c % 3 );
    if ( !name ) name = "checkpoint.npz";
    int n = rndi( 1, 25 ); float v[25]; int style = hist( v, n, greater, rndi( 0, 5 ));
    cur( "checkpoint '%s', monitored %d of %d metrics, %s, %s is better, history style %d, %d epochs", name, mon, w.nm, valid ? "validation" : "no validation", greater ? "greater" : "smaller", style, n );
    bool have = false; float best = 0; float **bestnet = NULL; char why[100]; int writes = 0;
    int before = chance( 0.3 ) ? 1 : 0;         /* an older checkpoint lies there */
    if ( before ) { FILE *o = fopen( name, "wb" ); if ( o ) { fputs( "something old", o ); fclose( o ); } else before = 0; }
    for ( int e = 0; e < n; e++ ) {
        mutate_net( w.nn ); float **now = params_snapshot( w.nn );
        /* the file's time stamp tells whether it is written again */
        struct stat a, b; bool had = !stat( name, &a );
        if ( had ) { struct timespec ts[2] = { { 1000, 0 }, { 1000, 0 } }; utimensat( AT_FDCWD, name, ts, 0 ); stat( name, &a ); }
        gbuf r = gb_new( nr, rndi( -1, 3 )); fill_results( r.p, nr ); r.p[idx] = v[e]; gb_ro( &r, true );
        callback_run( CALLBACK( cp ), w.opt, r.p, valid );
        gb_free( &r );
        if ( !params_same( w.nn, now )) viol( "changed", "the checkpoint changed the network" );
        bool imp = better( greater, have, best, v[e] ), is = !stat( name, &b );
        bool written = is && ( !had || a.st_ino != b.st_ino || b.st_mtime != 1000 );
        if ( imp ) { have = true; best = v[e]; if ( bestnet ) params_free( bestnet, w.nn->n_layers ); bestnet = now; now = NULL; writes++; }
        if ( have ) {
            if ( !is ) { viol( "missing", "epoch %d: there is no file '%s'", e + 1, name ); break; }
            if ( imp && !written ) { viol( "stale", "epoch %d improved from the best score to %.9g but the file was not written", e + 1, v[e] ); break; }
            if ( !imp && written ) { viol( "rewritten", "epoch %d (score %.9g) is no better than %.9g but the file was written", e + 1, v[e], best ); break; }
            if ( !net_is( name, w.nn, bestnet, why )) { viol( "content", "epoch %d (score %.9g, best %.9g): the file is not the best network, %s", e + 1, v[e], best, why ); break; }
            if ( nfiles( "." ) + nfiles( "sub" ) != 1 ) { viol( "files", "there are other files than '%s'", name ); break; }
        }
        if ( now ) params_free( now, w.nn->n_layers );
    }
    stat_add( "epochs", n ); stat_add( "writes_expected", writes );
    cover( h_hash( (int[]){ f, mon, w.nm, valid, greater, style, n }, 28, 0 ));
    if ( c % 499 == 0 ) sample( "%s: %d improvements", h_cur, writes );
    callback_free( CALLBACK( cp )); w_free( &w ); clean(); h_evals++;
}
/* ---------------------------------------------------------------- log */
static char *slurp( const char *p, size_t *n )
{
    FILE *f = fopen( p, "rb" ); *n = 0; if ( !f ) return NULL;
    char *b = malloc( 1 << 20 ); *n = fread( b, 1, ( 1 << 20 ) - 1, f ); b[*n] = 0; fclose( f ); return b;
}
/* one line of the log: number and values. false: not as it should be */
static bool check_line( const char *what, char *l, int epoch, const world *w, bool valid, const float *r )
{
    char *p = strstr( l, "Epoch" ); int e = -1, n = 0;
    if ( !p || sscanf( p, "Epoch %d%n", &e, &n ) != 1 ) { viol( "line", "%s: no epoch number in '%.80s'", what, l ); return false; }
    if ( e != epoch ) { viol( "number", "%s: epoch number %d instead of %d", what, e, epoch ); return false; }
    p += n;
    for ( int i = 0; i < w->nm * ( 1 + valid ); i++ ) {
        char nm[200], val[100]; int k = 0;
        if ( sscanf( p, " %199[^: ]: %99s%n", nm, val, &k ) != 2 ) { viol( "value", "%s: only %d of %d results in '%.100s'", what, i, w->nm * ( 1 + valid ), l ); return false; }
        char ex[200]; snprintf( ex, sizeof ex, "%s%s", i >= w->nm ? "val_" : "", get_metric_name( w->ml[i % w->nm] ));
        if ( strcmp( ex, nm )) { viol( "name", "%s: result %d is called '%s' instead of '%s'", what, i, nm, ex ); return false; }
        char *end; double d = strtod( val, &end ), x = r[i];
        bool ok = isnan( x ) ? isnan( d ) : isinf( x ) ? d == x : fabs( d - x ) <= 5.1e-6 * fabs( x ) + 1e-50;
        if ( *end || !ok ) { viol( "value", "%s: result %d is '%s' instead of %.9g", what, i, val, x ); return false; }
        p += k;
    }
    while ( *p == ' ' ) p++;
    if ( *p ) { viol( "value", "%s: more than the results: '%.60s'", what, p ); return false; }
    return true;
}
static void case_log( long c )
{
    world w; w_new_( &w, chance( 0.1 ) ? 60 : 5, chance( 0.3 )); bool valid = chance( 0.5 ); int nr = w.nm * ( 1 + valid );
    int kind = rndi( 0, 9 ); const char *name = kind == 9 ? ( chance( 0.5 ) ? NULL : "no/such/dir/log" ) : kind == 8 ? "sub/a %d log.txt" : "log.txt";
    static char lname[256]; if ( kind == 7 ) { int ll = rndi( 1, 250 ); for ( int i = 0; i < ll; i++ ) lname[i] = "abcdefghij klm%ds_-."[rndi( 0, 19 )]; lname[ll] = 0; lname[0] = 'L'; name = lname; }
    int start = chance( 0.7 ) ? 0 : chance( 0.2 ) ? (int) pow( 10, rndu() * 9.3 ) : rndi( 1, 5000 ); bool quiet = chance( 0.5 ), either = false; int other = 0;
    /* what lies there already */
    int first = start;
    int prior = 0;
    FILE *f = NULL;
    if ( kind < 8 && chance( 0.8 )) f = fopen( name, "wb" );
    if ( f ) {
        prior = 1 + rndi( 0, 9 );
        switch ( prior ) {
            case 1: break;                                                                          /* empty */
            case 2: fputs( "\n", f ); break;
            case 3: fputs( "one line without an end", f ); break;
            case 4: for ( int i = rndi( 1, 5000 ); i--; ) fputc( rndi( 0, 3 ) ? rndi( 0, 255 ) : '\n', f ); break;   /* binary */
            case 5: for ( int i = rndi( 1, 2000 ); i--; ) fputc( 'x', f ); if ( chance( 0.5 )) fputc( '\n', f ); break;
            case 6: fputs( "Epoch 77 of something\nloss 5\nThe Epoch 12 was good\n", f ); break;
            case 7: fprintf( f, "%s[12:34:56] Epoch %3d mean_squared_error: 1.00000e+00 \n", chance( 0.5 ) ? "a title\n\n" : "", other = chance( 0.4 ) ? (int) pow( 10, rndu() * 9.3 ) : rndi( 0, 20000 )); other++; break;    /* a log of one line */
            case 9: { other = 0; int k = rndi( 0, 2 ); for ( int i = 0; i < k; i++ ) fprintf( f, "[01:02:03] Epoch %3d mean_squared_error: 1.00000e+00 \n", i );    /* and a line that is none, but looks so later on */
                other = k; int m = chance( 0.7 ) ? rndi( 1, 3 ) * ( chance( 0.6 ) ? 255 : 1 << rndi( 5, 9 )) - rndi( 0, 1 ) : rndi( 1, 800 ); while ( m-- ) fputc( 'x', f ); fputs( "[01:02:03] Epoch 77 x", f ); if ( chance( 0.7 )) fputc( '\n', f ); } break;
            default: { int k = rndi( 2, 60 ), e0 = rndi( 0, 1200 ); bool lng = chance( 0.3 );
                for ( int i = 0; i < k; i++ ) { fprintf( f, "[%02d:00:%02d] Epoch %3d ", i % 24, i % 60, e0 + i ); for ( int j = 0; j < ( lng ? rndi( 5, 40 ) : 1 ); j++ ) fprintf( f, "mean_squared_error: %5.5e ", rndn() ); fputc( '\n', f ); }
                other = e0 + k; } break;
        }
        fclose( f );
        if ( prior >= 7 ) { if ( start ) either = true; else first = other; }
    }
    size_t n0; char *was = name ? slurp( name, &n0 ) : NULL; if ( !was ) n0 = 0;
    cur( "log '%s' over %s (kind %d), first number %d, %d metrics, %s, %s", name ? name : "(none)", was ? "an existing file" : "nothing", prior, first, w.nm, valid ? "validation" : "no validation", quiet ? "no stdout" : "stdout" );
    int e = 0, runs = rndi( 1, 3 ), epoch = first;
    float *hist_[40]; int ep[40]; 
    fflush( stdout ); int save1 = dup( 1 ), so = open( "stdout.txt", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600 ); dup2( so, 1 );
    for ( int run = 0; run < runs; run++ ) {
        if ( run && start ) { either = false; }
        logger_t *lg = start ? logger_new( LOGGER_SETTINGS( .filename = name, .no_stdout = quiet, .epoch_count = start )) : logger_new( LOGGER_SETTINGS( .filename = name, .no_stdout = quiet ));
        scribble( run );
        if ( run && ( start || !name || kind == 9 )) epoch = -1;        /* a configured start with an existing log, or no log to continue: from whatever the first line says */
        int k = rndi( 0, 12 );
        for ( int i = 0; i < k; i++ ) {
            gbuf r = gb_new( nr, -1 ); fill_results( r.p, nr );
            for ( int j = 0; j < nr; j++ ) if ( chance( 0.1 )) r.p[j] = chance( 0.5 ) ? bitsf( rnd() ) : chance( 0.3 ) ? NAN : chance( 0.5 ) ? INFINITY : 0;
            hist_[e] = malloc( nr * 4 ); memcpy( hist_[e], r.p, nr * 4 ); ep[e] = epoch < 0 ? -1 : epoch++; if ( epoch < 0 && i ) ep[e] = -2; e++;
            gb_ro( &r, true ); callback_run( CALLBACK( lg ), w.opt, r.p, valid ); gb_free( &r );
        }
        callback_free( CALLBACK( lg ));
    }
    fflush( stdout ); dup2( save1, 1 ); close( save1 ); close( so );
    for ( int pass = 0; pass < 2; pass++ ) {
        size_t n; char *b; const char *what = pass ? "stdout" : "log";
        if ( !pass ) {
            if ( !name || kind == 9 ) continue;
            b = slurp( name, &n );
            if ( !b && e == 0 ) continue;
            if ( !b ) { viol( "missing", "there is no log file '%s'", name ); continue; }
            if ( n < n0 || ( n0 && memcmp( b, was, n0 ))) { viol( "truncated", "what was in the log before is gone (%zu of %zu bytes left)", n, n0 ); free( b ); continue; }
            memmove( b, b + n0, n - n0 + 1 ); n -= n0;
            if ( n && *b == '\n' && n0 && was[n0-1] != '\n' ) memmove( b, b + 1, n-- );      /* the line that was there is ended */
        } else { b = slurp( "stdout.txt", &n ); if ( quiet ) { if ( n ) viol( "stdout", "stdout got '%.80s'", b ); free( b ); continue; } }
        char *l = b; int k = 0, last = -1;
        while ( *l ) {
            char *end = strchr( l, '\n' ); if ( !end ) { viol( "line", "%s: the last line has no end", what ); break; }
            *end = 0;
            if ( k == e ) { viol( "lines", "%s: more than %d lines", what, e ); break; }
            int expect = ep[k];
            if ( expect < 0 || ( either && k == 0 )) {        /* the number is free; it only has to go on from here */
                char *p = strstr( l, "Epoch" ); int g = -1; if ( p ) sscanf( p, "Epoch %d", &g );
                if ( expect == -2 ) expect = last + 1; else { if ( either && k == 0 && g != start && g != other ) viol( "number", "%s: starts at %d, neither %d nor %d", what, g, start, other ); expect = g; }
            } else if ( either && k && ep[k] >= 0 ) expect = last + 1;
            if ( !check_line( what, l, expect, &w, valid, hist_[k] )) break;
            last = expect; k++; l = end + 1;
        }
        if ( !*l && k != e ) viol( "lines", "%s: %d lines for %d epochs", what, k, e );
        stat_add( pass ? "lines_on_stdout" : "lines_in_logs", k );
        free( b );
    }
    cover( h_hash( (int[]){ kind, prior, start, w.nm, valid, quiet, runs, e }, 32, 0 ));
    if ( c % 499 == 0 ) sample( "%s: %d lines", h_cur, e );
    for ( int i = 0; i < e; i++ ) free( hist_[i] );
    free( was ); unlink( "stdout.txt" ); w_free( &w ); clean(); h_evals++;
}
/* ---------------------------------------------------------------- progress bar */
static int pm = -1, ps = -1;
static void pty_open( void )
{
    pm = posix_openpt( O_RDWR | O_NOCTTY ); if ( pm < 0 || grantpt( pm ) || unlockpt( pm )) { perror( "pty" ); exit( 3 ); }
    ps = open( ptsname( pm ), O_RDWR | O_NOCTTY ); if ( ps < 0 ) { perror( "pts" ); exit( 3 ); }
    struct termios t; tcgetattr( ps, &t ); cfmakeraw( &t ); tcsetattr( ps, TCSANOW, &t );
    fcntl( pm, F_SETFL, O_NONBLOCK );
}
static int pty_read( char *b, int n ) { int k = 0, r; while ( k < n - 1 && ( r = read( pm, b + k, n - 1 - k )) > 0 ) k += r; b[k] = 0; return k; }
static const char *pl_fmt; static int pl_i; static char pl_s[400]; static double pl_d;
static void call_progress( int x, int n, int form )
{
    switch ( form ) {
        case 0: progress_ascii( x, n, "Train: " ); break;
        case 1: progress_ascii( x, n, "%s", pl_s ); break;
        case 2: progress_ascii( x, n, "Epoch %d ", pl_i ); break;
        case 3: progress_ascii( x, n, "%s %d %.3f%%", pl_s, pl_i, pl_d ); break;
        default: progress_ascii( x, n, "" ); break;
    }
}
static void case_progress( long c )
{
    int form = rndi( 0, 4 ), L; char label[500]; pl_i = rndi( -99999, 99999 ); pl_d = rndn() * 100;
    int sl = chance( 0.15 ) ? rndi( 41, 300 ) : rndi( 0, 40 ); for ( int i = 0; i < sl; i++ ) pl_s[i] = "abc %ds#[]-"[rndi( 0, 10 )]; pl_s[sl] = 0;
    switch ( form ) { case 0: strcpy( label, "Train: " ); break; case 1: strcpy( label, pl_s ); break; case 2: sprintf( label, "Epoch %d ", pl_i ); break; case 3: sprintf( label, "%s %d %.3f%%", pl_s, pl_i, pl_d ); break; default: label[0] = 0; }
    L = strlen( label );
    int cols = sl > 40 && chance( 0.8 ) ? L + rndi( 20, 200 ) : chance( 0.1 ) ? 0 : chance( 0.2 ) ? rndi( 1, 30 ) : chance( 0.1 ) ? rndi( 300, 2000 ) : rndi( 20, 250 );
    struct winsize ws = { 24, cols, 0, 0 }; ioctl( ps, TIOCSWINSZ, &ws ); int real = cols ? cols : 80;
    int n = chance( 0.1 ) ? 1 : chance( 0.3 ) ? rndi( 1, 30 ) : chance( 0.5 ) ? rndi( 1, 2000 ) : chance( 0.7 ) ? rndi( 1, 100000000 ) : INT_MAX - ( chance( 0.5 ) ? 0 : rndi( 0, 100000 ));
    int batch = n <= 40 ? rndi( 1, n ) : chance( 0.3 ) ? rndi( 1, n ) : n / rndi( 2, 40 ) + 1, W = -1; bool any = false;
    if ( batch < n / 3000 ) batch = n / 3000;
    cur( "progress of %d in steps of %d, %d columns, label of %d", n, batch, cols, L );
    fflush( stdout ); int save1 = dup( 1 ); dup2( ps, 1 );
    static char b[1 << 16];
    pty_read( b, sizeof b );
    long last = -1; int seen = 0;
    for ( long x = chance( 0.1 ) ? 0 : batch; ; x += batch ) {
        if ( x > n ) x = n;
        long xs[3] = { x, 0, 0 }; int nx = 1;
        if ( x == n && n > 1 && last < n - 1 && chance( 0.5 )) { xs[0] = n - 1; xs[1] = n; nx = 2; }     /* just before the end */
        for ( int q = 0; q < nx; q++ ) {
            x = xs[q];
            call_progress( (int) x, n, form ); int k = pty_read( b, sizeof b );
            if ( k == 0 ) { if ( real - L >= 30 ) { viol( "nothing", "nothing was shown in %d columns", real ); goto out; } continue; }
            any = true; seen++;
            if ( strncmp( b, label, L )) { viol( "label", "'%.60s' does not start with the label '%s'", b, label ); goto out; }
            char *p = b + L; if ( *p != '[' ) { viol( "shape", "'%.60s' is not a bar", p ); goto out; }
            p++; int full = strspn( p, "#" ); p += full; int rest = strspn( p, "-" ); p += rest; int pct = -1, m = 0;
            if ( sscanf( p, "] %d%%%n", &pct, &m ) != 1 || !m ) { viol( "shape", "'%.30s' after the bar", p ); goto out; }
            p += m; int w = full + rest;
            if ( strcmp( p, x == n ? "\n" : "\r" )) { viol( "end", "%ld of %d ends in %02x %02x", x, n, p[0], p[1] ); goto out; }
            if ( W < 0 ) W = w; else if ( w != W ) { viol( "width", "the bar is %d wide and was %d", w, W ); goto out; }
            if ( w < 1 || p - b > real ) { viol( "width", "a line of %d characters in %d columns, bar of %d", (int)( p - b ), real, w ); goto out; }
            double ex = (double) x / n * w;
            if ( fabs( full - ex ) > 1.0001 ) { viol( "fill", "%ld of %d fills %d of %d", x, n, full, w ); goto out; }
            if (( full == w ) != ( x == n )) { viol( "fill", "%ld of %d fills %d of %d", x, n, full, w ); goto out; }
            if ( fabs( pct - 100.0 * x / n ) > 1.0001 || ( pct >= 100 && x < n ) || ( x == n && pct != 100 )) { viol( "percent", "%ld of %d is %d%%", x, n, pct ); goto out; }
            last = x;
        }
        if ( x == n ) break;
    }
out:
    fflush( stdout ); dup2( save1, 1 ); close( save1 );
    stat_add( any ? "bars_shown" : "terminals_too_narrow", any ? seen : 1 );
    cover( h_hash( (int[]){ cols, n, batch, L }, 16, 0 ));
    if ( c % 997 == 0 ) sample( "%s -> width %d, %d lines", h_cur, W, seen );
    h_evals++;
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_quiet(); heap_poison();
    if ( !H_ASAN ) { int fd = open( "/dev/null", O_WRONLY ); dup2( fd, 2 ); close( fd ); }
    if ( chdir( h_dir )) { perror( h_dir ); return 3; }
    mkdir( "sub", 0700 );
    if ( !strcmp( h_mode, "progress" )) pty_open();
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c );
        if ( !strcmp( h_mode, "early" )) case_early( c );
        else if ( !strcmp( h_mode, "checkpoint" )) case_checkpoint( c );
        else if ( !strcmp( h_mode, "log" )) case_log( c );
        else case_progress( c );
    }
    h_finish(); return 0;
}
