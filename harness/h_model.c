/* C10, C11: networks in files. argv[8]: directory shared with the Python monitor. */
#include "h.h"
#include "acct.h"
#include "neuralnet.h"
#include "activation.h"
#include "ref.h"
static const char *dir;
static void dump( const char *path, const neuralnet_t *nn )
{
    FILE *f = fopen( path, "wb" ); if ( !f ) { perror( path ); exit( 3 ); }
    uint32_t L = nn ? nn->n_layers : 0; fwrite( &L, 4, 1, f );
    if ( nn ) {
        for ( int i = 0; i < nn->n_layers; i++ ) {
            const layer_t *l = nn->layer + i; int32_t s[2] = { l->n_input, l->n_output }; fwrite( s, 4, 2, f );
            const char *n = get_activation_name( l->activation_func ); if ( !n ) n = "(null)";
            uint32_t k = strlen( n ); fwrite( &k, 4, 1, f ); fwrite( n, 1, k, f );
            fwrite( l->weight, 4, (size_t) s[0] * s[1], f ); fwrite( l->bias, 4, s[1], f );
        }
    }
    fclose( f );
}
static float hostile_float( int style )
{
    switch ( style == 3 ? rndi( 0, 7 ) : style ) {
        case 0: return rndn();
        case 1: return bitsf( (uint32_t) rnd() );
        case 2: { static const uint32_t b[] = { 0x7fc00000, 0xffc00001, 0x7f800001, 0x7fffffff, 0xffbfffff, 0x7f800000, 0xff800000, 0x80000000, 0, 1, 0x80000001, 0x007fffff, 0x7f7fffff, 0xff7fffff, 0x00800000 }; return bitsf( b[rndi( 0, 14 )] ); }
        case 4: return 0.0f;
        case 5: return bitsf( rnd() & 0x807fffff );
        default: return rndn() * 0.3f;
    }
}
static int act_pool[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8 };
static neuralnet_t *rnd_net( int maxL, int maxS )
{
    int L = chance( 0.1 ) ? rndi( 1, maxL ) : chance( 0.015 ) ? rndi( 30, 260 ) : rndi( 1, 5 ), sz[300]; char *an[300]; if ( maxL <= 8 && L > 30 ) L = maxL;
    for ( int i = 0; i <= L; i++ ) sz[i] = L > 8 ? rndi( 1, 12 ) : rnd_size( maxS );
    if ( maxL > 8 && chance( 0.02 )) { for ( int i = 0; i <= L; i++ ) sz[i] = rndi( 1, 4 ); sz[ chance( 0.4 ) ? 0 : rndi( 0, L ) ] = chance( 0.3 ) ? rndi( 1000, 5000 ) : chance( 0.5 ) ? 65535 + rndi( 0, 2 ) : rndi( 32760, 100001 ); }   /* one layer much wider than the others */
    int same = rndi( 0, 8 ); bool s = chance( 0.2 );
    for ( int i = 0; i < L; i++ ) an[i] = (char*) act_names[ act_pool[ s ? same : rndi( 0, 8 ) ]];
    neuralnet_t *nn = neuralnet_create( L, sz, an ); if ( !nn ) { fprintf( stderr, "cannot create\n" ); exit( 3 ); }
    int style = rndi( 0, 3 );
    for ( int i = 0; i < L; i++ ) {
        for ( int k = 0; k < sz[i] * sz[i+1]; k++ ) nn->layer[i].weight[k] = hostile_float( style );
        for ( int k = 0; k < sz[i+1]; k++ ) nn->layer[i].bias[k] = hostile_float( style );
    }
    return nn;
}
static uint64_t net_hash( const neuralnet_t *nn )
{
    uint64_t h = h_hash( &nn->n_layers, 4, 0 );
    for ( int i = 0; i < nn->n_layers; i++ ) { const layer_t *l = nn->layer + i; h = h_hash( l, sizeof *l, h ); h = h_hash( l->weight, (size_t) l->n_input * l->n_output * 4, h ); h = h_hash( l->bias, (size_t) l->n_output * 4, h ); }
    return h;
}
static bool same_net( const char *what, const neuralnet_t *a, const neuralnet_t *b )
{
    if ( a->n_layers != b->n_layers ) { viol( "layers", "%s: %d layers instead of %d", what, b->n_layers, a->n_layers ); return false; }
    for ( int i = 0; i < a->n_layers; i++ ) {
        const layer_t *l = a->layer + i, *m = b->layer + i;
        if ( l->n_input != m->n_input || l->n_output != m->n_output ) { viol( "sizes", "%s: layer %d is (%d,%d) instead of (%d,%d)", what, i, m->n_input, m->n_output, l->n_input, l->n_output ); return false; }
        if ( l->activation_func != m->activation_func ) { viol( "activation", "%s: layer %d has %s instead of %s", what, i, get_activation_name( m->activation_func ), get_activation_name( l->activation_func )); return false; }
        for ( size_t k = 0; k < (size_t) l->n_input * l->n_output; k++ ) if ( fbits( l->weight[k] ) != fbits( m->weight[k] )) { viol( "bits", "%s: layer %d weight %zu is %08x instead of %08x", what, i, k, fbits( m->weight[k] ), fbits( l->weight[k] )); return false; }
        for ( int k = 0; k < l->n_output; k++ ) if ( fbits( l->bias[k] ) != fbits( m->bias[k] )) { viol( "bits", "%s: layer %d bias %d is %08x instead of %08x", what, i, k, fbits( m->bias[k] ), fbits( l->bias[k] )); return false; }
    }
    for ( int r = 0; r < 2; r++ ) {
        gbuf x = gb_new( a->layer[0].n_input, rndi( -1, 3 )), y1 = gb_new( a->layer[a->n_layers-1].n_output, 0 ), y2 = gb_new( a->layer[a->n_layers-1].n_output, 0 );
        for ( size_t i = 0; i < x.n; i++ ) x.p[i] = chance( 0.1 ) ? 0 : chance( 0.1 ) ? 1 : rndn();
        neuralnet_predict( a, x.p, y1.p ); neuralnet_predict( b, x.p, y2.p );
        for ( size_t i = 0; i < y1.n; i++ ) if ( fbits( y1.p[i] ) != fbits( y2.p[i] ) && !( isnan( y1.p[i] ) && isnan( y2.p[i] ))) { viol( "prediction", "%s: output %zu is %.9g instead of %.9g", what, i, y2.p[i], y1.p[i] ); return false; }
        gb_free( &x ); gb_free( &y1 ); gb_free( &y2 );
    }
    return true;
}
static int ls( char *first, size_t n )     /* number of files below the current directory */
{
    int k = 0; DIR *d = opendir( "." ); struct dirent *e; first[0] = 0;
    while (( e = readdir( d ))) if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) && strcmp( e->d_name, "sub" )) { snprintf( first, n, "%s", e->d_name ); k++; }
    closedir( d );
    d = opendir( "sub" ); while ( d && ( e = readdir( d ))) if ( e->d_name[0] != '.' || strlen( e->d_name ) > 2 ) { snprintf( first, n, "sub/%s", e->d_name ); k++; }
    if ( d ) closedir( d );
    return k;
}
#define SAVE( fmt, ... ) ( snprintf( name, sizeof name, fmt, ##__VA_ARGS__ ), neuralnet_save( nn, fmt, ##__VA_ARGS__ ))
static void case_roundtrip( long c )
{
    neuralnet_t *nn = rnd_net( 30, chance( 0.05 ) ? 300 : 60 );
    char name[400], other[400]; uint64_t h = net_hash( nn );
    int form = rndi( 0, 21 ), n = rndi( -5, 99999 ); double d = rndn() * 1000; char pad[200]; memset( pad, 'p', sizeof pad );
    cur( "net of %d layers, file name form %d", nn->n_layers, form );
    char here[200], *base; if ( !getcwd( here, sizeof here )) exit( 3 ); base = strrchr( here, '/' ) + 1;
    bool again = chance( 0.3 );
    for ( int rep = 0; rep < 1 + again; rep++ ) {
        switch ( form ) {
            case 0: SAVE( "model.npz" ); break;
            case 1: SAVE( "after-%d-epochs.npz", n ); break;
            case 2: SAVE( "%s-%d-%.3f", "net", n, d ); break;
            case 3: SAVE( "100%%%d.npz", n ); break;
            case 4: SAVE( "%%s%%n.npz" ); break;
            case 5: SAVE( "%c%c%05.1f|%+d|%x", 'a', 'Z', d, n, n ); break;
            case 6: SAVE( "sub/%s.%zu", "x", (size_t) 12345678901ull ); break;
            case 7: SAVE( "%s", "%d%s%n" ); break;
            case 8: pad[128] = 0; SAVE( "%s", pad ); break;                   /* the longest name allowed */
            case 9: pad[127] = 0; SAVE( "%s", pad ); break;
            case 10: SAVE( "%10s|%-10s|%e|%g", "r", "l", d, d ); break;
            case 11: SAVE( "%1$s.%1$s.%2$d", "twice", n ); break;
            case 12: SAVE( "%s/%s-%i.%s", ".", "n ame", n, "npz" ); break;
            case 13: SAVE( "./model-%d.npz", n ); break;
            case 14: SAVE( ".%s", "hidden" ); break;
            case 15: SAVE( "../%s/back.npz", base ); break;
            case 16: { char fmt[300], *q = fmt; for ( char *z = here; *z; z++ ) { if ( *z == '%' ) *q++ = '%'; *q++ = *z; } strcpy( q, "/abs-%d" ); snprintf( name, sizeof name, fmt, n ); if ( strlen( name ) > 120 ) { SAVE( "short.npz" ); } else neuralnet_save( nn, fmt, n ); break; }
            case 17: SAVE( "sub/../sub/./%d", n ); break;
            case 18: SAVE( "-%c.npz", 'r' ); break;
            case 19: SAVE( "~%s.tmp", "model.npz" ); break;
            case 20: SAVE( " %s\n", "  " ); break;
            default: SAVE( "%lld-%Lf-%s", (long long) n << 33, (long double) 1.5L, "ø" ); break;
        }
        if ( net_hash( nn ) != h ) { viol( "changed", "saving changed the network" ); break; }
        struct stat st; int k = ls( other, sizeof other );
        if ( stat( name, &st )) { viol( "filename", "there is no file '%s'%s%s", name, k ? " but " : "", other ); break; }
        if ( k != 1 ) { viol( "filename", "%d files instead of '%s', one is '%s'", k, name, other ); break; }
        neuralnet_t *m = neuralnet_load( name );
        if ( !m ) { viol( "refused", "the saved file cannot be loaded" ); break; }
        bool ok = same_net( rep ? "saved over another network" : "saved and loaded", nn, m );
        if ( ok && rep == again && c % 3 == 0 ) {
            char p[1000]; snprintf( p, sizeof p, "%s/s%ld.bin", dir, c ); dump( p, nn );
            snprintf( p, sizeof p, "%s/s%ld.npz", dir, c );
            FILE *a = fopen( name, "rb" ), *b = fopen( p, "wb" ); char buf[65536]; size_t r; while (( r = fread( buf, 1, sizeof buf, a ))) fwrite( buf, 1, r, b ); fclose( a ); fclose( b );
            stat_add( "files_given_to_numpy", 1 );
        }
        neuralnet_free( m );
        h_evals++;
        if ( rep == 0 && again ) { neuralnet_free( nn ); nn = rnd_net( 8, 40 ); h = net_hash( nn ); }
    }
    cover( h_hash( (int[]){ form, nn->n_layers, nn->layer[0].n_input, nn->layer[0].n_output }, 16, 0 ));
    if ( c % 53 == 0 ) sample( "%d layers saved as '%s'", nn->n_layers, name );
    unlink( name ); 
    while ( ls( other, sizeof other )) if ( unlink( other )) break;
    neuralnet_free( nn );
}
/* a file of Python and what is in it */
static void case_import( long c )
{
    char p[1000]; snprintf( p, sizeof p, "%s/i%ld.bin", dir, c );
    FILE *f = fopen( p, "rb" ); if ( !f ) { perror( p ); exit( 3 ); }
    uint32_t L; if ( !fread( &L, 4, 1, f )) exit( 3 );
    snprintf( p, sizeof p, "%s/i%ld.npz", dir, c );
    cur( "importing a network of %u layers from '%s'", L, p );
    scribble( c % 3 );
    neuralnet_t *nn = neuralnet_load( p );
    h_evals++;
    if ( !nn ) { viol( "refused", "a network of %u layers written by numpy cannot be loaded", L ); fclose( f ); return; }
    int sz[300]; char nm[300][80], *an[300];
    float *W[300], *B[300];
    for ( uint32_t i = 0; i < L; i++ ) {
        int32_t s[2]; uint32_t k; if ( fread( s, 4, 2, f ) != 2 || !fread( &k, 4, 1, f ) || fread( nm[i], 1, k, f ) != k ) exit( 3 );
        nm[i][k] = 0; an[i] = nm[i]; sz[i] = s[0]; sz[i+1] = s[1];
        W[i] = malloc( 4 * (size_t) s[0] * s[1] ); B[i] = malloc( 4 * s[1] );
        if ( fread( W[i], 4, (size_t) s[0] * s[1], f ) != (size_t) s[0] * s[1] || fread( B[i], 4, s[1], f ) != (size_t) s[1] ) exit( 3 );
    }
    fclose( f );
    neuralnet_t *ex = neuralnet_create( L, sz, an );
    for ( uint32_t i = 0; i < L; i++ ) { memcpy( ex->layer[i].weight, W[i], 4 * (size_t) sz[i] * sz[i+1] ); memcpy( ex->layer[i].bias, B[i], 4 * sz[i+1] ); free( W[i] ); free( B[i] ); }
    for ( uint32_t i = 0; i < L; i++ ) if ( ex->layer[i].activation_func != get_activation_func( nm[i] )) viol( "activation", "%s is not resolved", nm[i] );
    same_net( "written by numpy", ex, nn );
    cover( h_hash( sz, sizeof(int) * ( L + 1 ), c ));
    neuralnet_free( ex ); neuralnet_free( nn );
}
/* C11 */
static void case_bad( long c )
{
    char p[1000], o[1000]; snprintf( p, sizeof p, "%s/f%ld", dir, c ); snprintf( o, sizeof o, "%s/r%ld", dir, c );
    acct_t a[ACCT_REPS]; char why[100]; int last = 0;
    cur( "loading '%s'", p );
    for ( int rep = 0; ; rep++ ) {
        scribble( rep % 3 );
        neuralnet_t *nn = neuralnet_load( p );
        if ( !rep ) { dump( o, nn ); stat_add( nn ? "loaded" : "refused", 1 ); }
        if ( nn ) {
            gbuf x = gb_new( nn->layer[0].n_input, -1 ), y = gb_new( nn->layer[nn->n_layers-1].n_output, -1 );
            for ( size_t i = 0; i < x.n; i++ ) x.p[i] = rndn();
            neuralnet_predict( nn, x.p, y.p );
            if ( !gb_intact( &y )) viol( "predict", "prediction with the loaded network wrote beside its output" );
            gb_free( &x ); gb_free( &y );
            neuralnet_free( nn );
        }
        last = rep; if ( !acct_again( a, rep )) break;
    }
    if ( acct_verdict( a, last, why )) viol( "leak", "loading keeps %s", why );
    h_evals++;
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); dir = argv[8];
    h_quiet(); if ( !H_ASAN ) { int fd = open( "/dev/null", O_WRONLY ); dup2( fd, 2 ); close( fd ); }
    if ( chdir( h_dir )) { perror( h_dir ); return 3; }
    mkdir( "sub", 0700 );
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c );
        if ( !strcmp( h_mode, "roundtrip" )) case_roundtrip( c );
        else if ( !strcmp( h_mode, "import" )) case_import( c );
        else case_bad( c );
    }
    h_finish(); return 0;
}
