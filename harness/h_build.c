/* C28: one build of the library writes models and data, every other build reads them and predicts.
 * Compiled against every build, also those made for prediction only. */
#include "h.h"
#include "ref.h"
#include "neuralnet_predict_batch.h"
#include "npy_array.h"
#include "npy_array_list.h"
#include <omp.h>

static const char *shared; static char *who;
typedef struct { spec_t s; int n; neuralnet_t *nn; float *x; float **snap; bool finite; } case_t;

static void make( case_t *c )
{
    rnd_seed( h_mix( h_seed * 77777ull + (uint64_t) h_case ));      /* the same in every mode and build */
    spec_random( &c->s, 5, 70, true ); if ( chance( 0.08 )) spec_deep( &c->s );
    if ( chance( 0.1 )) { int l = rndi( 0, c->s.L ); c->s.sz[l] = rndi( 257, 600 ); spec_desc( &c->s ); }
    bool wide = chance( 0.02 ); if ( wide ) spec_wide( &c->s, 70000 );
    c->n = chance( 0.2 ) ? 1 : rndi( 2, wide ? 4 : 60 );
    c->nn = spec_create( &c->s ); if ( !c->nn ) return;
    fill_params( c->nn ); c->finite = true;
    c->x = malloc( (size_t) c->n * c->s.sz[0] * 4 );
    for ( int i = 0; i < c->n; i++ ) fill_input( c->x + (size_t) i * c->s.sz[0], c->s.sz[0] );
    if ( chance( 0.15 )) {        /* parameters that are any bits at all: for the files only */
        c->finite = false;
        for ( int l = 0; l < c->s.L; l++ ) { uint32_t b = (uint32_t) rnd(); memcpy( c->nn->layer[l].weight + rndi( 0, c->s.sz[l] * c->s.sz[l+1] - 1 ), &b, 4 ); }
    }
    c->snap = params_snapshot( c->nn );
}
static void unmake( case_t *c ) { params_free( c->snap, c->s.L ); free( c->x ); neuralnet_free( c->nn ); }
static void path( char *p, const char *w, const char *ext ) { snprintf( p, 900, "%s/%ld-%s.%s", shared, h_case, w, ext ); }

#ifndef PREDICTION_ONLY
static void case_write( void )
{
    case_t c; make( &c ); if ( !c.nn ) { viol( "create", "neuralnet_create failed for %s", c.s.desc ); return; }
    cur( "saving %s by %s", c.s.desc, who );
    /* neuralnet_save takes names of at most 128 characters */
    char p[1000]; snprintf( p, sizeof p, "%s.m", who );
    neuralnet_save( c.nn, "%s", p );
    char q[1000]; path( q, who, "npz" );
    if ( rename( p, q )) viol( "save", "no file after saving %s", c.s.desc );
    npy_array_t a = { .ndim = 2, .shape = { c.n, c.s.sz[0] }, .data = (char*) c.x, .typechar = 'f', .elem_size = 4 };
    path( q, who, "npy" ); npy_array_save( q, &a );
    cover( spec_hash( &c.s )); stat_add( "models_written", 1 ); unmake( &c ); h_evals++;
}
#endif

static void compare( case_t *c, const char *w )
{
    char p[1000]; path( p, w, "npz" );
    cur( "%s reads the model of %s: %s", who, w, c->s.desc );
    if ( access( p, R_OK )) return;
    neuralnet_t *nn = neuralnet_load( p );
    if ( !nn ) { viol( "load", "the model %s saved cannot be loaded by %s (%s)", w, who, c->s.desc ); return; }
    bool same = nn->n_layers == c->s.L;
    for ( int l = 0; same && l < c->s.L; l++ ) same = nn->layer[l].n_input == c->s.sz[l] && nn->layer[l].n_output == c->s.sz[l+1] && nn->layer[l].activation_func == get_activation_func( act_names[c->s.act[l]] );
    if ( !same || !params_same( nn, c->snap )) { viol( "model", "the model %s saved is another one when loaded by %s (%s)", w, who, c->s.desc ); neuralnet_free( nn ); return; }
    stat_add( "models_of_other_builds_loaded", strcmp( w, who ) != 0 );
    path( p, w, "npy" );
    npy_array_t *a = npy_array_load( p );
    if ( !a || a->ndim != 2 || a->shape[0] != (size_t) c->n || a->shape[1] != (size_t) c->s.sz[0] || memcmp( a->data, c->x, (size_t) c->n * c->s.sz[0] * 4 )) viol( "array", "the array %s saved is another one when loaded by %s", w, who );
    if ( a ) npy_array_free( a );
    if ( c->finite ) {
        int no = c->s.sz[c->s.L], ni = c->s.sz[0];
        gbuf all = gb_new( (size_t) no * c->n, rndi( 0, 20 )), one = gb_new( no, rndi( 0, 20 ));
        omp_set_num_threads( rndi( 1, 4 ));
        scribble( 0 ); neuralnet_predict_batch( nn, c->n, c->x, all.p );
        rnet r; rnet_init( &r, nn, c->s.act );
        for ( int i = 0; i < c->n; i++ ) {
            const ed *ref = rnet_forward( &r, c->x + (size_t) i * ni );
            if ( !rnet_finite( &r ) || !ed_usable( ref, no )) { stat_add( "rows_without_tight_bound", 1 ); continue; }
            scribble( 1 ); neuralnet_predict( nn, c->x + (size_t) i * ni, one.p );
            int j; for ( j = 0; j < no && ed_ok( ref[j], all.p[(size_t) i * no + j] ) && ed_ok( ref[j], one.p[j] ); j++ );
            if ( j < no ) { viol( "value", "%s: row %d of %d, output %d is %.9g in the batch, %.9g alone, expected %.9g +- %.2g", who, i, c->n, j, all.p[(size_t) i * no + j], one.p[j], ref[j].v, ref[j].e ); break; }
            stat_add( "rows_compared", 1 );
        }
        if ( !gb_intact( &all ) || !gb_intact( &one )) viol( "overwrite", "memory beside the outputs was written" );
        rnet_free( &r ); gb_free( &all ); gb_free( &one );
    }
    neuralnet_free( nn );
}
static void case_read( char *writers )
{
    case_t c; make( &c ); if ( !c.nn ) { viol( "create", "neuralnet_create failed for %s", c.s.desc ); return; }
    char w[1000]; snprintf( w, sizeof w, "%s", writers );
    for ( char *t = strtok( w, "," ); t; t = strtok( NULL, "," )) compare( &c, t );
    if ( h_case % 50 == 0 ) sample( "%s reads models of %s: %s", who, writers, c.s.desc );
    cover( spec_hash( &c.s )); unmake( &c ); h_evals++;
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); heap_poison(); h_quiet();
    shared = argv[8]; who = argv[9];
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c );
        if ( !strcmp( h_mode, "read" )) case_read( argv[10] );
#ifndef PREDICTION_ONLY
        else if ( !strcmp( h_mode, "write" )) case_write();
#endif
        else return 2;
    }
    h_finish();
    return 0;
}
