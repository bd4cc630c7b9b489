/* C09: several networks with optimizers and callbacks in one process, interleaved, against each of them alone in a fresh process */
#include "h.h"
#include "ref.h"
#include "optimizer_implementations.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "logger.h"
#include "evaluate.h"
#include "neuralnet_predict_batch.h"
#include "loss.h"
#include <omp.h>

static const char *metric_names[7] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy", "binary_accuracy", "categorical_accuracy" };
typedef struct {
    uint64_t seed; int id; const char *dir;
    spec_t s; int loss, kind, bs, n, nv, nm, epochs, nes, nmcp, nlog, state, epoch; metric_func mf[6];
    float lr, mom, decay, b1, b2, wd, rho; bool nesterov, defmetrics;
    float *X, *Y, *VX, *VY, *res; size_t np;
    neuralnet_t *nn; optimizer_t *o; earlystopping_t *es[3]; modelcheckpoint_t *mcp[2]; logger_t *lg[2]; char mcpname[2][64], logname[2][64];
    int es_mon[3], es_pat[3]; bool es_gr[3];
    FILE *rec; char *recbuf; size_t reclen; bool done;
} inst;

static void *am( size_t n ) { void *p = NULL; if ( posix_memalign( &p, 128, n + 128 )) abort(); memset( p, 0, n + 128 ); return p; }   /* same alignment alone and together */
static void inst_config( inst *I )     /* everything follows from the seed */
{
    rnd_seed( I->seed );
    static const int acts[] = { A_SOFTPLUS, A_SOFTSIGN, A_LINEAR, A_RELU, A_SIGMOID, A_TANH };
    I->s.L = rndi( 1, 3 ); for ( int l = 0; l <= I->s.L; l++ ) I->s.sz[l] = rndi( 1, 10 ); for ( int l = 0; l < I->s.L; l++ ) I->s.act[l] = acts[rndi( 0, 5 )];
    I->loss = rndi( 0, L_N - 1 ); if ( I->loss == L_CCE ) I->s.act[I->s.L-1] = A_SOFTMAX; if ( I->loss == L_BCE ) I->s.act[I->s.L-1] = A_SIGMOID;
    spec_desc( &I->s );
    I->kind = rndi( 0, 3 ); I->n = rndi( 1, 60 ); I->nv = chance( 0.5 ) ? rndi( 1, 20 ) : 0; I->bs = rndi( 1, 20 ); I->epochs = rndi( 1, 8 );
    I->lr = (float)( 0.002 + 0.02 * rndu()); I->mom = chance( 0.6 ) ? 0.8f : 0; I->nesterov = chance( 0.5 ); I->decay = chance( 0.5 ) ? 0.01f : 0;
    I->b1 = (float)( 0.5 + 0.4 * rndu()); I->b2 = (float)( 0.9 + 0.09 * rndu()); I->wd = chance( 0.5 ) ? 0.001f : 0; I->rho = (float)( 0.7 + 0.2 * rndu());
    I->defmetrics = chance( 0.4 ); I->nm = rndi( 1, 5 );
    for ( int k = 0; k < I->nm; k++ ) I->mf[k] = get_metric_func( metric_names[rndi( 0, 6 )] );
    if ( I->defmetrics ) { I->nm = 1; I->mf[0] = get_metric_func( loss_names[I->loss] ); } I->mf[I->nm] = NULL;
    int ni = I->s.sz[0], no = I->s.sz[I->s.L];
    I->X = am( I->n * ni * 4 ); I->Y = am( I->n * no * 4 ); I->VX = am( (I->nv + 1) * ni * 4 ); I->VY = am( (I->nv + 1) * no * 4 ); I->res = calloc( 2 * I->nm, 4 );
    for ( int i = 0; i < I->n; i++ ) { for ( int j = 0; j < ni; j++ ) I->X[i*ni+j] = (float) rndn(); fill_target( I->Y + i*no, no, I->loss ); }
    for ( int i = 0; i < I->nv; i++ ) { for ( int j = 0; j < ni; j++ ) I->VX[i*ni+j] = (float) rndn(); fill_target( I->VY + i*no, no, I->loss ); }
    I->nes = rndi( 0, 3 ); I->nmcp = rndi( 0, 2 ); I->nlog = rndi( 0, 2 );
    for ( int k = 0; k < I->nes; k++ ) { I->es_pat[k] = rndi( 0, 3 ); I->es_mon[k] = chance( 0.5 ) ? -1 : rndi( 0, I->nm * ( I->nv ? 2 : 1 ) - 1 ); I->es_gr[k] = chance( 0.5 ); }
    for ( int k = 0; k < 2; k++ ) { snprintf( I->mcpname[k], 64, "%s/mcp%d_%d.npz", I->dir, I->id, k ); snprintf( I->logname[k], 64, "%s/log%d_%d.txt", I->dir, I->id, k ); }
    I->rec = open_memstream( &I->recbuf, &I->reclen );
    I->state = 0; I->epoch = 0; I->done = false;
}
static uint64_t net_hash( const neuralnet_t *nn )
{
    uint64_t h = nn->n_layers;
    for ( int l = 0; l < nn->n_layers; l++ ) { h = h_hash( nn->layer[l].bias, 4 * nn->layer[l].n_output, h ); h = h_hash( nn->layer[l].weight, 4ul * nn->layer[l].n_output * nn->layer[l].n_input, h ); }
    return h;
}
static void no_progress( int x, int n, const char *f, ... ) { (void) x; (void) n; (void) f; }
/* the next action of this instance */
static void inst_step( inst *I )
{
    int ni = I->s.sz[0], no = I->s.sz[I->s.L];
    switch ( I->state ) {
        case 0: {
            I->nn = spec_create( &I->s ); uint64_t a = h_s[0], b = h_s[1]; rnd_seed( I->seed ^ 5 ); fill_params( I->nn ); h_s[0] = a; h_s[1] = b;
            neuralnet_set_loss( I->nn, loss_names[I->loss] ); break; }
        case 1: {
            optimizer_properties_t op = OPTIMIZER_PROPERTIES( .batchsize = I->bs, .shuffle = false, .metrics = I->defmetrics ? NULL : I->mf, .progress = no_progress );
            switch ( I->kind ) {
                case 0: I->o = OPTIMIZER( SGD_new( I->nn, op, SGD_PROPERTIES( .learning_rate = I->lr, .decay = I->decay, .momentum = I->mom, .nesterov = I->nesterov ))); break;
                case 1: I->o = OPTIMIZER( RMSprop_new( I->nn, op, RMSPROP_PROPERTIES( .learning_rate = I->lr, .rho = I->rho, .decay = I->decay, .momentum = I->mom, .nesterov = I->nesterov ))); break;
                case 2: I->o = OPTIMIZER( adagrad_new( I->nn, op, ADAGRAD_PROPERTIES( .learning_rate = I->lr, .decay = I->decay ))); break;
                default: I->o = OPTIMIZER( adam_new( I->nn, op, ADAM_PROPERTIES( .learning_rate = I->lr, .beta_1 = I->b1, .beta_2 = I->b2, .weight_decay = I->wd ))); break;
            } break; }
        case 2:
            for ( int k = 0; k < I->nes; k++ ) I->es[k] = earlystopping_new( EARLYSTOPPING_SETTINGS( .patience = I->es_pat[k], .monitor_idx = I->es_mon[k], .greater_is_better = I->es_gr[k] )); break;
        case 3:
            for ( int k = 0; k < I->nmcp; k++ ) I->mcp[k] = modelcheckpoint_new( MODELCHECKPOINT_SETTINGS( .filename = I->mcpname[k], .greater_is_better = k == 1, .monitor_idx = k ? -1 : 0 ));
            for ( int k = 0; k < I->nlog; k++ ) I->lg[k] = logger_new( LOGGER_SETTINGS( .filename = I->logname[k], .no_stdout = k == 0, .epoch_count = k * 7 )); break;
        case 4:      /* an epoch */
            optimizer_run_epoch( I->o, I->n, I->X, I->Y, I->nv, I->nv ? I->VX : NULL, I->nv ? I->VY : NULL, I->res );
            fprintf( I->rec, "epoch %d params %016llx results", I->epoch, (unsigned long long) net_hash( I->nn ));
            for ( int k = 0; k < I->nm * ( I->nv ? 2 : 1 ); k++ ) fprintf( I->rec, " %.9g", I->res[k] );
            fprintf( I->rec, "\n" ); break;
        case 5:      /* its callbacks */
            for ( int k = 0; k < I->nlog; k++ ) callback_run( CALLBACK( I->lg[k] ), I->o, I->res, I->nv > 0 );
            for ( int k = 0; k < I->nes; k++ ) { callback_run( CALLBACK( I->es[k] ), I->o, I->res, I->nv > 0 ); fprintf( I->rec, "stop%d %d\n", k, earlystopping_do_stop( I->es[k] )); }
            for ( int k = 0; k < I->nmcp; k++ ) {
                callback_run( CALLBACK( I->mcp[k] ), I->o, I->res, I->nv > 0 );
                neuralnet_t *q = access( I->mcpname[k], F_OK ) == 0 ? neuralnet_load( I->mcpname[k] ) : NULL;
                fprintf( I->rec, "checkpoint%d %016llx\n", k, q ? (unsigned long long) net_hash( q ) : 0 ); if ( q ) neuralnet_free( q );
            } break;
        case 6: {    /* use the network */
            float *out = am( I->n * no * 4 ), m[6]; neuralnet_predict( I->nn, I->X, out ); fprintf( I->rec, "predict %016llx", (unsigned long long) h_hash( out, no * 4, 1 ));
            neuralnet_predict_batch( I->nn, I->n, I->X, out ); fprintf( I->rec, " batch %016llx", (unsigned long long) h_hash( out, I->n * no * 4, 1 ));
            evaluate( I->nn, I->n, I->X, I->Y, I->mf, m ); fprintf( I->rec, " evaluate %016llx\n", (unsigned long long) h_hash( m, I->nm * 4, 1 )); free( out ); break; }
        case 7: {    /* the end */
            for ( int k = 0; k < I->nes; k++ ) callback_free( CALLBACK( I->es[k] ));
            for ( int k = 0; k < I->nmcp; k++ ) callback_free( CALLBACK( I->mcp[k] ));
            for ( int k = 0; k < I->nlog; k++ ) callback_free( CALLBACK( I->lg[k] ));
            break; }
        case 8: optimizer_free( I->o ); break;
        case 9: {
            fprintf( I->rec, "final %016llx\n", (unsigned long long) net_hash( I->nn )); neuralnet_free( I->nn );
            for ( int k = 0; k < I->nlog; k++ ) {
                FILE *f = fopen( I->logname[k], "r" ); char b[4096];
                if ( !f ) { fprintf( I->rec, "no log\n" ); continue; }
                while ( fgets( b, sizeof b, f )) { char *p = b; if ( b[0] == '[' ) { p = strchr( b, ']' ); if ( !p ) p = b; } fprintf( I->rec, "log%d %s", k, p ); }
                fclose( f ); unlink( I->logname[k] );
            }
            for ( int k = 0; k < I->nmcp; k++ ) unlink( I->mcpname[k] );
            fclose( I->rec ); I->done = true; break; }
    }
    if ( I->state == 6 && ++I->epoch < I->epochs ) I->state = 4; else I->state++;
    (void) ni;
}
static void inst_clear( inst *I ) { free( I->X ); free( I->Y ); free( I->VX ); free( I->VY ); free( I->res ); free( I->recbuf ); }

static void case_multi( void )
{
    inst I[5]; int k = rndi( 2, 5 ); uint64_t seed = rnd(), seeds[5]; int style = rndi( 0, 3 );
    for ( int i = 0; i < k; i++ ) seeds[i] = i && chance( 0.2 ) ? seeds[i-1] : h_mix( seed + i );     /* sometimes twins */
    char *solo[5]; cur( "%d instances alone", k );
    for ( int i = 0; i < k; i++ ) {
        char fn[200]; snprintf( fn, sizeof fn, "%s/solo", h_dir ); fflush( h_out ); fflush( stdout );
        pid_t p = fork();
        if ( p == 0 ) {
            inst S; memset( &S, 0, sizeof S ); S.seed = seeds[i]; S.id = 50; S.dir = h_dir; inst_config( &S ); while ( !S.done ) inst_step( &S );
            FILE *f = fopen( fn, "w" ); fwrite( S.recbuf, 1, S.reclen, f ); fclose( f ); _exit( 0 );
        }
        int st; waitpid( p, &st, 0 ); if ( st ) { viol( "alone", "an instance alone ended with status %d (instance %d, seed %llx)", st, i, (unsigned long long) seeds[i] ); while ( i-- ) free( solo[i] ); return; }
        FILE *f = fopen( fn, "r" ); solo[i] = calloc( 1, 1 << 20 ); size_t got = fread( solo[i], 1, (1 << 20) - 1, f ); (void) got; fclose( f ); unlink( fn );
    }
    memset( I, 0, sizeof I );
    for ( int i = 0; i < k; i++ ) { I[i].seed = seeds[i]; I[i].id = i; I[i].dir = h_dir; inst_config( &I[i] ); }
    rnd_seed( seed ^ 99 );
    static const char optl[] = "SRGA";
    cur( "%d instances together, style %d:", k, style ); for ( int i = 0; i < k; i++ ) curadd( " %c(%s n %d bs %d es %d mcp %d log %d%s)", optl[I[i].kind], I[i].s.desc, I[i].n, I[i].bs, I[i].nes, I[i].nmcp, I[i].nlog, I[i].defmetrics ? " default metric" : "" );
    char sched[2001]; int ns = 0, last = 0; uint64_t sh = 0;
    for ( ;; ) {
        int left = 0; for ( int i = 0; i < k; i++ ) left += !I[i].done;
        if ( !left ) break;
        int i;
        if ( style == 0 ) i = ( last + 1 ) % k; else if ( style == 1 && !I[last].done && chance( 0.7 )) i = last;
        else if ( style == 2 ) { i = 0; for ( int j = 0; j < k; j++ ) if ( !I[j].done && ( I[i].done || I[j].state < I[i].state || ( I[j].state == I[i].state && chance( 0.5 )))) i = j; }
        else i = rndi( 0, k - 1 );
        last = i; if ( I[i].done ) continue;
        if ( ns < 2000 ) sched[ns++] = '0' + i; sh = h_mix( sh * 7 + i );
        inst_step( &I[i] ); stat_add( "actions", 1 );
    }
    sched[ns] = 0;
    for ( int i = 0; i < k; i++ ) {
        if ( strlen( solo[i] ) != I[i].reclen || memcmp( solo[i], I[i].recbuf, I[i].reclen )) {
            char *a = solo[i], *b = I[i].recbuf; size_t o = 0, ls = 0; while ( a[o] && a[o] == b[o] ) { if ( a[o] == '\n' ) ls = o + 1; o++; }
            char la[300], lb[300]; snprintf( la, sizeof la, "%.*s", (int) strcspn( a + ls, "\n" ), a + ls ); snprintf( lb, sizeof lb, "%.*s", (int) strcspn( b + ls, "\n" ), b + ls );
            viol( "differs", "instance %d alone: \"%s\", with the others (schedule %.300s): \"%s\"", i, la, sched, lb );
        }
        stat_add( "bytes_of_history_compared", I[i].reclen );
    }
    cover( sh ^ seed );
    if ( h_case % 29 == 0 ) sample( "%d instances, schedule %.200s", k, sched );
    for ( int i = 0; i < k; i++ ) { inst_clear( &I[i] ); free( solo[i] ); }
    h_evals++;
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); heap_poison(); h_quiet(); omp_set_num_threads( 1 );
    if ( chdir( h_dir )) return 3;
    h_dir = ".";
    for ( long c = h_from; c < h_to; c++ ) { h_begin( c ); case_multi(); }
    h_finish();
    return 0;
}
