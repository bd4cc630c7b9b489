/* C17: constructors and loaders when memory runs out, and impossible sizes. All allocations of the process (also those of libzip and libc)
 * pass through here; with ASan, those of the library itself (--wrap). */
#include "h.h"
#include "acct.h"
#include "neuralnet.h"
#include "activation.h"
#include "npy_array.h"
#include "npy_array_list.h"
#include "ref.h"
#include <zip.h>
#include <dlfcn.h>
extern char __executable_start, etext;
static bool armed; static int mode_own; static long n_seen, fail_at, n_failed; static bool fail_on; static size_t fail_size; static long live_blocks; static size_t live_bytes, max_single = (size_t) 1 << 31;
#if H_ASAN
#define N(f) __wrap_##f
#define R(f) __real_##f
void *__real_malloc( size_t ); void *__real_calloc( size_t, size_t ); void *__real_realloc( void *, size_t ); void __real_free( void * ); int __real_posix_memalign( void **, size_t, size_t ); void *__real_aligned_alloc( size_t, size_t ); void *__real_memalign( size_t, size_t ); char *__real_strdup( const char * );
static bool own( void *ra ) { (void) ra; return true; }
#else
#define N(f) f
#define R(f) __libc_##f
void *__libc_malloc( size_t ); void *__libc_calloc( size_t, size_t ); void *__libc_realloc( void *, size_t ); void __libc_free( void * ); void *__libc_memalign( size_t, size_t );
static bool own( void *ra ) { return (char*) ra >= &__executable_start && (char*) ra < &etext; }
#endif
static bool must_fail( size_t n, void *ra )
{
    if ( !armed ) return false;
    if ( n > max_single ) { n_failed++; return true; }
    if ( mode_own && !own( ra )) return false;
    long k = ++n_seen;
    if (( fail_at && ( fail_on ? k >= fail_at : k == fail_at )) || ( fail_size && n >= fail_size )) { n_failed++; return true; }
    return false;
}
static void *took( void *p ) { if ( p ) { live_blocks++; live_bytes += malloc_usable_size( p ); } return p; }
static void drop( void *p ) { if ( p ) { live_blocks--; live_bytes -= malloc_usable_size( p ); } }
#define RA __builtin_return_address( 0 )
void *N(malloc)( size_t n ) { if ( must_fail( n, RA )) { errno = ENOMEM; return NULL; } return took( R(malloc)( n )); }
void *N(calloc)( size_t a, size_t b ) { size_t n; if ( __builtin_mul_overflow( a, b, &n ) || must_fail( n, RA )) { errno = ENOMEM; return NULL; } return took( R(calloc)( a, b )); }
void *N(realloc)( void *p, size_t n ) { if ( must_fail( n, RA )) { errno = ENOMEM; return NULL; } drop( p ); void *q = R(realloc)( p, n ); if ( !q && n ) took( p ); return took( q ); }
void N(free)( void *p ) { drop( p ); R(free)( p ); }
#if H_ASAN
int N(posix_memalign)( void **r, size_t al, size_t n ) { if ( must_fail( n, RA )) return ENOMEM; int e = __real_posix_memalign( r, al, n ); if ( !e ) took( *r ); return e; }
void *N(aligned_alloc)( size_t al, size_t n ) { if ( must_fail( n, RA )) { errno = ENOMEM; return NULL; } return took( __real_aligned_alloc( al, n )); }
void *N(memalign)( size_t al, size_t n ) { if ( must_fail( n, RA )) { errno = ENOMEM; return NULL; } return took( __real_memalign( al, n )); }
char *N(strdup)( const char *s ) { if ( must_fail( strlen( s ) + 1, RA )) { errno = ENOMEM; return NULL; } return took( __real_strdup( s )); }
#else
int posix_memalign( void **r, size_t al, size_t n ) { if ( must_fail( n, RA )) return ENOMEM; void *p = __libc_memalign( al, n ); if ( !p ) return ENOMEM; *r = took( p ); return 0; }
void *aligned_alloc( size_t al, size_t n ) { if ( must_fail( n, RA )) { errno = ENOMEM; return NULL; } return took( __libc_memalign( al, n )); }
void *memalign( size_t al, size_t n ) { if ( must_fail( n, RA )) { errno = ENOMEM; return NULL; } return took( __libc_memalign( al, n )); }
#endif
static int errfd, outfd;
static off_t said( void ) { fflush( stderr ); fflush( stdout ); off_t n = lseek( errfd, 0, SEEK_END ); if ( ftruncate( errfd, 0 )) exit( 3 ); return n; }
/* ---- what is made */
enum { CREATE, LOAD, NPY, MMAP, NPZ, N_KINDS }; static const char *kname[] = { "neuralnet_create", "neuralnet_load", "npy_array_load", "npy_array_mmap", "npy_array_list_load" };
typedef struct { int kind, L, sz[20]; char *names[20]; neuralnet_t *net; npy_array_t *arr[10]; char *an[10]; int na; char file[64]; bool warn, custom; char *dl; } job_t;
static void *make( const job_t *j )
{
    switch ( j->kind ) { case CREATE: return neuralnet_create( j->L, (int*) j->sz, (char**) j->names ); case LOAD: return neuralnet_load( j->file ); case NPY: return npy_array_load( j->file ); case MMAP: return npy_array_mmap( j->file ); default: return npy_array_list_load( j->file ); }
}
static void release( const job_t *j, void *p ) { if ( !p ) return; switch ( j->kind ) { case CREATE: case LOAD: neuralnet_free( p ); break; case NPY: case MMAP: npy_array_free( p ); break; default: npy_array_list_free( p ); } }
static bool same_arr( const npy_array_t *a, const npy_array_t *b )
{
    if ( a->ndim != b->ndim || a->typechar != b->typechar || a->elem_size != b->elem_size || a->fortran_order != b->fortran_order ) return false;
    for ( int i = 0; i < a->ndim; i++ ) if ( a->shape[i] != b->shape[i] ) return false;
    return !memcmp( a->data, b->data, npy_array_calculate_datasize( b ));
}
/* NULL: it is right */
static const char *wrong( const job_t *j, void *p, bool failures )
{
    if ( j->kind <= LOAD ) {
        neuralnet_t *m = p; if ( m->n_layers != j->L ) return "a network with another number of layers";
        for ( int l = 0; l < j->L; l++ ) {
            layer_t *y = m->layer + l; if ( y->n_input != j->sz[l] || y->n_output != j->sz[l+1] ) return "a network with other sizes";
            if ( j->dl && j->names[l] == j->dl ) { if ( y->activation_func != (activation_func) dlsym( RTLD_DEFAULT, "abs" ) && !( failures && y->activation_func == get_activation_func( "linear" ))) return "a network with another custom activation"; continue; }
            if ( j->custom && strchr( j->names[l], '@' )) {     /* its own function or, for want of memory, linear; and it can be called */
                static void *lm; if ( !lm ) lm = dlopen( "libm.so.6", RTLD_NOW ); char sym[40]; snprintf( sym, sizeof sym, "%s", j->names[l] ); *strchr( sym, '@' ) = 0;
                float a[8] = { 0 }; y->activation_func( 1, a );
                if ( y->activation_func != (activation_func) dlsym( lm, sym ) && !( failures && y->activation_func == get_activation_func( "linear" ))) return "a network with another custom activation";
                continue;
            }
            activation_func f = get_activation_func( j->names[l] ); if ( !f ) f = get_activation_func( "linear" ); if ( y->activation_func != f ) return "a network with other activations";
            if ( !y->weight || !y->bias ) return "a network without parameters";
            if ( j->kind == LOAD && ( memcmp( y->weight, j->net->layer[l].weight, 4ul * y->n_input * y->n_output ) || memcmp( y->bias, j->net->layer[l].bias, 4ul * y->n_output ))) return "a network with other parameters";
            if ( j->kind == CREATE ) { for ( size_t k = 0; k < (size_t) y->n_input * y->n_output; k++ ) y->weight[k] = k; for ( int k = 0; k < y->n_output; k++ ) y->bias[k] = k; }    /* it is all ours */
        }
        return NULL;
    }
    if ( j->kind <= MMAP ) return same_arr( p, j->arr[0] ) ? NULL : "another array";
    int k = 0; bool missing = false;
    for ( npy_array_list_t *l = p; l; l = l->next, k++ ) {
        if ( !l->array || !l->filename ) return "an archive with an empty member";
        while ( k < j->na && !( !strcmp( l->filename, j->an[k] ) && same_arr( l->array, j->arr[k] ))) { k++; missing = true; }
        if ( k == j->na ) return "an archive with other members";
    }
    if ( k < j->na ) missing = true;
    return missing && !failures ? "an archive without all its members" : NULL;
}
static neuralnet_t *by_net; static npy_array_list_t *by_arr; static uint64_t by_hash;
static uint64_t bystanders( void )
{
    uint64_t h = by_net->n_layers; for ( int l = 0; l < by_net->n_layers; l++ ) { layer_t *y = by_net->layer + l; h = h_hash( y, sizeof *y, h ); h = h_hash( y->weight, 4ul * y->n_input * y->n_output, h ); h = h_hash( y->bias, 4ul * y->n_output, h ); }
    for ( npy_array_list_t *l = by_arr; l; l = l->next ) { h = h_hash( l->filename, strlen( l->filename ), h ); h = h_hash( l->array->data, npy_array_calculate_datasize( l->array ), h ); }
    return h;
}
static npy_array_t *rnd_arr( void )
{
    npy_array_t *a = calloc( 1, sizeof *a ); a->ndim = rndi( 0, 3 ); a->typechar = "fiuS"[rndi( 0, 3 )]; a->elem_size = a->typechar == 'S' ? rndi( 1, 9 ) : 1 << rndi( a->typechar == 'f' ? 2 : 0, 3 ); a->fortran_order = chance( 0.3 );
    size_t n = a->elem_size; for ( int i = 0; i < a->ndim; i++ ) n *= a->shape[i] = rndi( 0, 20 ) ? rndi( 1, 12 ) : 0;
    if ( chance( 0.1 )) { a->ndim = 2; a->shape[0] = rndi( 100, 300 ); a->shape[1] = rndi( 50, 100 ); n = a->elem_size * a->shape[0] * a->shape[1]; }
    if ( a->ndim < 2 ) a->fortran_order = false;
    a->data = malloc( n + 1 ); for ( size_t i = 0; i < n; i++ ) a->data[i] = rnd(); return a;
}
static void fds( acct_t *a ) { *a = h_acct(); }
/* once: is all well? */
/* (libzip itself does not put everything back when its own allocations fail: then only the outcome counts) */
/* a library of its own for every attempt: one that stays although it is of no use is seen in the map */
static void fresh_library( char *name )
{
    static unsigned char *b; static ssize_t n; static int count; char f[300];
    if ( !b ) { Dl_info di; b = malloc( 1 << 20 ); if ( !dladdr( dlsym( RTLD_NEXT, "abs" ), &di )) exit( 3 ); snprintf( f, sizeof f, "%.*slibdl.so.2", (int)( strrchr( di.dli_fname, '/' ) + 1 - di.dli_fname ), di.dli_fname );
        int fd = open( f, O_RDONLY ); if ( fd < 0 || ( n = read( fd, b, 1 << 20 )) < 1 ) { perror( f ); exit( 3 ); } close( fd ); }
    snprintf( name, 300, "abs@%s/dl%d.so", h_dir, ++count );
    int fd = open( name + 4, O_WRONLY | O_CREAT | O_TRUNC, 0700 ); if ( fd < 0 || write( fd, b, n ) != n ) { perror( name ); exit( 3 ); } close( fd );
}
static bool mapped( const char *file )
{
    static char l[5000]; FILE *f = fopen( "/proc/self/maps", "r" ); bool r = false; while ( f && !r && fgets( l, sizeof l, f )) { l[strcspn( l, "\n" )] = 0; char *s = strchr( l, '/' ); r = s && !strcmp( s, file ); } if ( f ) fclose( f ); return r;
}
static bool once( const job_t *j, const char *desc, long k, bool on )
{
    if ( j->dl ) fresh_library( j->dl );
    acct_t a, b; fds( &a ); size_t b0 = live_bytes; long n0 = live_blocks; 
    fail_at = k; fail_on = on; n_seen = n_failed = 0; armed = true; void *p = make( j ); armed = false; fail_at = 0; long failed = n_failed; fail_size = 0; 
    bool ok = true; const char *w = p ? wrong( j, p, failed > 0 ) : NULL; 
    if ( w ) { viol( "incomplete", "%s gives %s when %s%ld fails", desc, w, on ? "every allocation from number " : "allocation number ", k ); ok = false; }
    if ( !p && !failed ) { viol( "refused", "%s fails although all its allocations succeed", desc ); ok = false; }
    if ( j->dl ) {
        long ns = n_seen; fail_at = 1; fail_on = true; n_seen = n_failed = 0; armed = true; bool got = get_activation_func( j->dl ) != NULL; armed = false; fail_at = 0; n_failed = 0; n_seen = ns;     /* what is loaded is known without any memory */
        if ( mapped( j->dl + 4 ) && !got ) { viol( "leak", "%s: the library of its activation is not in use, but stays open when %s%ld fails", desc, on ? "every allocation from number " : "allocation number ", k ); ok = false; }
        stat_add( got ? "libraries_loaded" : "libraries_not_loaded", 1 ); 
    }
    release( j, p ); h_evals++; stat_add( p ? failed ? "survived" : "no_failure" : "reported", 1 ); stat_add( "allocations_failed", failed );
    if ( mode_own && ( live_bytes != b0 || live_blocks != n0 )) {      /* once more: what is kept for good is kept once */
        size_t b1 = live_bytes; long n1 = live_blocks, ns = n_seen; int left = 0;
        for ( int r = 0; r < 3; r++ ) { fail_at = k; fail_on = on; n_seen = n_failed = 0; armed = true; p = make( j ); armed = false; fail_at = 0; release( j, p ); if ( live_blocks > n1 || live_bytes > b1 ) left++; n1 = live_blocks; b1 = live_bytes; }
        n_seen = ns;
        if ( left == 3 ) { viol( "leak", "%s leaves %ld blocks (%ld bytes) behind when %s%ld fails", desc, n1 - n0, (long)( b1 - b0 ), on ? "every allocation from number " : "allocation number ", k ); ok = false; }
    }
    fds( &b ); if ( !mode_own ) for ( int i = 3; i < 256 && b.fds > a.fds; i++ ) { if ( i != errfd && i != outfd && fcntl( i, F_GETFD ) >= 0 ) { char l[40], t[300]; snprintf( l, sizeof l, "/proc/self/fd/%d", i ); ssize_t n = readlink( l, t, sizeof t - 1 ); if ( n > 0 ) { t[n] = 0; if ( strstr( t, j->file )) { close( i ); b.fds--; stat_add( "files_left_open_by_libzip", 1 ); } } } }
    if ( b.fds > a.fds || ( b.maps > a.maps && !j->dl )) { viol( "leak", "%s leaves %d files open and %d mapped when allocation %ld fails", desc, b.fds - a.fds, b.maps - a.maps, k ); ok = false; }
    if ( bystanders() != by_hash ) { viol( "damage", "%s has damaged other objects when allocation %ld fails", desc, k ); ok = false; }
    if ( p == NULL && !said() && !H_ASAN ) { viol( "silent", "%s fails without a message when allocation %ld fails", desc, k ); ok = false; } else said();
    return ok;
}
static void rnd_job( job_t *j )
{
    memset( j, 0, sizeof *j ); j->kind = rndi( 0, N_KINDS - 1 );
    if ( j->kind <= LOAD ) {
        j->L = chance( 0.1 ) ? rndi( 6, 18 ) : rndi( 1, 5 ); for ( int l = 0; l <= j->L; l++ ) j->sz[l] = rnd_size( 60 );
        for ( int l = 0; l < j->L; l++ ) j->names[l] = (char*) act_names[rndi( 0, 8 )];
        if ( j->kind == CREATE && chance( 0.3 )) { static char *bad[] = { "nosuch", "", "RELU", "sigmoid ", "relu6" }; j->names[rndi( 0, j->L - 1 )] = bad[rndi( 0, 4 )]; j->warn = true; }
        if ( j->kind == CREATE && chance( 0.3 )) {
            static char *fn[] = { "acosf", "asinf", "atanf", "cosf", "sinf", "tanf", "acoshf", "asinhf", "atanhf", "coshf", "sinhf", "tanhf", "expf", "exp2f", "expm1f", "logf", "log2f", "log10f", "log1pf", "logbf", "cbrtf", "sqrtf", "fabsf", "erff", "erfcf", "tgammaf", "ceilf", "floorf", "truncf", "roundf", "rintf", "nearbyintf", "acos", "asin", "atan", "cos", "sin", "tan", "acosh", "asinh", "atanh", "cosh", "sinh", "tanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "logb", "cbrt", "sqrt", "fabs", "erf", "erfc", "tgamma", "ceil", "floor", "trunc", "round", "rint", "nearbyint" };
            enum { FN = sizeof fn / sizeof *fn }; static char nm[40]; snprintf( nm, sizeof nm, "%s@libm.so.6", fn[h_case % FN] ); j->names[rndi( 0, j->L - 1 )] = nm; j->custom = true; stat_add( "custom_activations", 1 );
            if ( chance( 0.3 )) { static char dl[300]; fresh_library( dl ); j->dl = dl; for ( int l = 0; l < j->L; l++ ) if ( j->names[l] == nm ) j->names[l] = dl; }
        }
        if ( j->kind == LOAD ) { j->net = neuralnet_create( j->L, j->sz, j->names ); fill_params( j->net ); snprintf( j->file, sizeof j->file, "net.npz" ); unlink( j->file ); neuralnet_save( j->net, "%s", j->file ); 
            if ( chance( 0.4 )) { npy_array_list_t *l = npy_array_list_load( j->file ); unlink( j->file ); if ( l ) { npy_array_list_save_compressed( j->file, l, ZIP_CM_DEFLATE, 1 ); npy_array_list_free( l ); } } }
    } else {
        j->na = j->kind == NPZ ? rndi( 1, 6 ) : 1; snprintf( j->file, sizeof j->file, j->kind == NPZ ? "a.npz" : "a.npy" ); unlink( j->file );
        npy_array_list_t *l = NULL;
        for ( int i = 0; i < j->na; i++ ) { j->arr[i] = rnd_arr(); if ( j->kind == MMAP ) { } char nm[200]; snprintf( nm, sizeof nm, "%.*s%d.npy", rndi( 1, chance( 0.2 ) ? 60 : 10 ), "member_with_a_name_that_goes_on_and_on_for_quite_a_while_so_that_it_takes_an_allocation_of_its_own_in_whatever_library_it_may_pass_through_on_its_way_to_us", i ); j->an[i] = strdup( nm ); }
        if ( j->kind == NPZ ) { for ( int i = 0; i < j->na; i++ ) { npy_array_t *c = malloc( sizeof *c ); *c = *j->arr[i]; l = npy_array_list_append( l, c, "%s", j->an[i] ); }
            npy_array_list_save_compressed( j->file, l, chance( 0.5 ) ? ZIP_CM_STORE : ZIP_CM_DEFLATE, 0 ); 
            while ( l ) { npy_array_list_t *t = l->next; free( l->filename ); free( l->array ); free( l ); l = t; } }
        else npy_array_save( j->file, j->arr[0] );
    }
}
static void free_job( job_t *j ) { if ( j->net ) neuralnet_free( j->net ); for ( int i = 0; i < j->na; i++ ) { free( j->arr[i]->data ); free( j->arr[i] ); free( j->an[i] ); } if ( j->file[0] ) unlink( j->file ); }
static void oom( long c )
{
    job_t j; rnd_job( &j ); char desc[400]; int n = snprintf( desc, sizeof desc, "%s", kname[j.kind] );
    if ( j.kind <= LOAD ) { n += snprintf( desc + n, sizeof desc - n, " of {%d", j.sz[0] ); for ( int l = 0; l < j.L; l++ ) n += snprintf( desc + n, sizeof desc - n, ",%d:%s", j.sz[l+1], j.names[l] ); snprintf( desc + n, sizeof desc - n, "}" ); }
    else snprintf( desc + n, sizeof desc - n, " of %d arrays, the first %c%d with %d dimensions", j.na, j.arr[0]->typechar, (int) j.arr[0]->elem_size, j.arr[0]->ndim );
    mode_own = chance( 0.6 ) || j.dl;     /* (a dlopen() that is itself out of memory leaves the loader in disorder) */
    cur( "%s, no failure", desc ); said();
    bool ok = once( &j, desc, 0, false ); long N = n_seen; stat_add( "allocations", N ); 
    int m = N > 60 ? 40 : N;
    for ( int i = 1; i <= m && ok; i++ ) {
        long k = m < N && i > 8 ? rndi( 9, N ) : i;
        cur( "%s, allocation %ld of %ld fails (%s)", desc, k, N, mode_own ? "of the library's own" : "of all" ); ok = once( &j, desc, k, false );
        if ( ok ) { cur( "%s, allocations from %ld on of %ld fail (%s)", desc, k, N, mode_own ? "of the library's own" : "of all" ); ok = once( &j, desc, k, true ); }
        cover( h_mix( k ) ^ h_hash( desc, strlen( desc ), mode_own ));
    }
    if ( ok ) { size_t s = (size_t) 1 << rndi( 4, 16 ); fail_size = s; cur( "%s, allocations of %zu bytes and more fail", desc, s ); once( &j, desc, 0, false ); cover( s ^ h_hash( desc, strlen( desc ), 7 )); }
    cur( "%s, after the failures", desc ); if ( ok ) once( &j, desc, 0, false );
    if ( c % 53 == 0 ) sample( "%s: %ld allocations (%s)", desc, N, mode_own ? "the library's own" : "all" );
    free_job( &j ); said();
}
/* ---- impossible sizes and names */
static void sizes( long c )
{
    int L = rndi( 1, 6 ), sz[8]; char *an[8]; for ( int l = 0; l <= L; l++ ) { sz[l] = rnd_size( 40 ); an[l] = (char*) act_names[rndi( 0, 8 )]; } an[L] = NULL;
    static const int bad[] = { 0, -1, -2, INT_MIN, -1000000, INT_MIN + 1 }, huge[] = { INT_MAX, 1 << 30, 65536, 1 << 16, 46341, 1 << 20, 1 << 28 };
    int kind = rndi( 0, 3 ), gl = L; char d[200] = ""; double need = 0; bool must_null = false;
    if ( kind == 0 ) { gl = bad[rndi( 0, 5 )]; must_null = true; }
    else if ( kind == 1 ) { int k = rndi( 1, 2 ); while ( k-- ) sz[rndi( 0, L )] = bad[rndi( 0, 5 )]; must_null = true; }
    else if ( kind == 2 ) { int k = rndi( 1, 3 ); while ( k-- ) sz[rndi( 0, L )] = huge[rndi( 0, 6 )]; }
    for ( int l = 0; l < L; l++ ) if ( sz[l] > 0 && sz[l+1] > 0 ) need += 4.0 * sz[l] * sz[l+1] + 4.0 * sz[l+1];
    int n = snprintf( d, sizeof d, "%d layers {", gl ); for ( int l = 0; l <= L; l++ ) n += snprintf( d + n, sizeof d - n, "%d,", sz[l] );
    cur( "%s", d ); cover( h_hash( sz, 4 * ( L + 1 ), gl )); said(); size_t b0 = live_bytes; long n0 = live_blocks; mode_own = 1; fail_at = 0; max_single = (size_t) 64 << 20; n_failed = 0;
    armed = true; neuralnet_t *nn = neuralnet_create( gl, sz, an ); armed = false; max_single = (size_t) 1 << 31; h_evals++;
    if ( nn && must_null ) viol( "sizes", "a network with %s} was created", d );
    else if ( !nn && !said() && !H_ASAN ) viol( "silent", "no message when there is no network with %s}", d );
    else if ( !nn && !must_null && kind == 3 ) viol( "refused", "no network with %s}", d );
    else if ( !nn && !must_null && !n_failed && need < 64e6 ) viol( "refused", "no network with %s}, but memory", d );
    else if ( nn && live_bytes - b0 < need ) { viol( "incomplete", "a network with %s} of %.0f bytes was created in %zu bytes", d, need, live_bytes - b0 ); return; }
    stat_add( nn ? "created" : must_null ? "impossible" : "too_big", 1 );
    if ( nn ) neuralnet_free( nn );
    if ( live_bytes != b0 || live_blocks != n0 ) viol( "leak", "%s}: %ld blocks left", d, live_blocks - n0 );
    if ( bystanders() != by_hash ) viol( "damage", "%s}: other objects are damaged", d );
    if ( c % 997 == 0 ) sample( "%s}: %s", d, nn ? "created" : "refused" );
    said();
    /* names */
    if ( kind == 3 ) {
        static char *badn[] = { "nosuch", "", "Relu", "tanh ", " tanh", "sigmoidal", "%s%n", "linear@", "x@/nonexistent.so", "softmax\n", "lin" }; bool b[8]; int nb = 0;
        char longname[300]; memset( longname, 'a', 299 ); longname[299] = 0;
        for ( int l = 0; l < L; l++ ) { b[l] = chance( 0.4 ); if ( b[l] ) { an[l] = chance( 0.1 ) ? longname : badn[rndi( 0, 10 )]; nb++; } }
        cur( "%d unresolvable names in %d layers, the first name is '%s'", nb, L, an[0] ); said(); nn = neuralnet_create( L, sz, an ); h_evals++;
        off_t s = said();
        if ( !nn ) viol( "names", "no network with %d unresolvable names", nb );
        else { for ( int l = 0; l < L; l++ ) if ( nn->layer[l].activation_func != get_activation_func( b[l] ? "linear" : an[l] )) viol( "names", "layer %d with the name '%s' is %s", l, an[l], get_activation_name( nn->layer[l].activation_func )); if ( nb && !s && !H_ASAN ) viol( "silent", "no warning of %d unresolvable names", nb ); neuralnet_free( nn ); }
        stat_add( "names_not_resolved", nb );
    }
}
/* C14: a save over an older model when memory runs out, in a process of its own (an assertion may end it) */
static unsigned char *whole( const char *fn, size_t *n )
{
    int fd = open( fn, O_RDONLY ); *n = 0; if ( fd < 0 ) return NULL; struct stat st; fstat( fd, &st ); unsigned char *b = malloc( st.st_size + 1 ); ssize_t k;
    while (( k = read( fd, b + *n, st.st_size + 1 - *n )) > 0 ) *n += k;
    close( fd ); return b;
}
static bool is_net( const char *fn, const neuralnet_t *nn )
{
    neuralnet_t *m = neuralnet_load( fn ); bool ok = m && m->n_layers == nn->n_layers;
    for ( int l = 0; ok && l < nn->n_layers; l++ ) { const layer_t *a = nn->layer + l, *b = m->layer + l; ok = a->n_input == b->n_input && a->n_output == b->n_output && a->activation_func == b->activation_func && !memcmp( a->weight, b->weight, 4ul * a->n_input * a->n_output ) && !memcmp( a->bias, b->bias, 4ul * a->n_output ); }
    if ( m ) neuralnet_free( m );
    return ok;
}
static neuralnet_t *small_net( void )
{
    int L = chance( 0.1 ) ? rndi( 6, 14 ) : rndi( 1, 4 ), sz[20]; char *nm[20]; for ( int l = 0; l <= L; l++ ) sz[l] = rndi( 1, 30 ); for ( int l = 0; l < L; l++ ) nm[l] = (char*) act_names[rndi( 0, 8 )];
    neuralnet_t *nn = neuralnet_create( L, sz, nm ); if ( nn ) fill_params( nn ); return nn;
}
static void saving( long c )
{
    neuralnet_t *nw = small_net(), *od = small_net(); bool there = chance( 0.85 ); unlink( "m.npz" ); size_t on = 0, n; unsigned char *ob = NULL;
    if ( there ) { neuralnet_save( od, "m.npz" ); ob = whole( "m.npz", &on ); }
    cur( "a network of %d layers is saved over %s", nw->n_layers, there ? "an older one" : "nothing" );
    long N = 0; mode_own = chance( 0.3 );
    for ( long k = 0; k <= N || k == 0; k++ ) {
        for ( int on_ = 0; on_ < ( k ? 2 : 1 ); on_++ ) {
            if ( k > 40 && on_ && chance( 0.7 )) continue;
            if ( there ) { int fd = open( "m.npz", O_WRONLY | O_CREAT | O_TRUNC, 0644 ); if ( write( fd, ob, on ) != (ssize_t) on ) exit( 3 ); close( fd ); } else unlink( "m.npz" );
            said(); fflush( h_out ); int pp[2]; if ( pipe( pp )) exit( 3 );
            cur( "a network of %d layers is saved over %s, %s %ld", nw->n_layers, there ? "an older one" : "nothing", on_ ? "every allocation fails from number" : "no memory for allocation", k );
            pid_t p = fork(); if ( p < 0 ) { perror( "fork" ); exit( 3 ); }
            if ( !p ) {
                fail_at = k; fail_on = on_; n_seen = n_failed = 0; armed = true; neuralnet_save( nw, "m.npz" ); armed = false; long r[2] = { n_seen, n_failed };
                if ( write( pp[1], r, sizeof r ) != sizeof r ) _exit( 3 );
                fflush( stdout ); fflush( stderr ); _exit( 0 );
            }
            close( pp[1] ); int st; waitpid( p, &st, 0 ); long r[2] = { 0, 1 }; bool back = read( pp[0], r, sizeof r ) == sizeof r; close( pp[0] ); h_evals++;
            if ( !k ) N = r[0];
            if ( WIFSIGNALED( st ) && WTERMSIG( st ) != SIGABRT ) { viol( "killed", "signal %d", WTERMSIG( st )); goto out; }
            if ( H_ASAN && WIFEXITED( st ) && WEXITSTATUS( st )) { viol( "killed", "exit with status %d", WEXITSTATUS( st )); goto out; }
            unsigned char *b = whole( "m.npz", &n ); bool same = there ? b && n == on && !memcmp( b, ob, n ) : !b; free( b );
            bool isnew = !same && is_net( "m.npz", nw ); off_t msg = said();
            if ( !same && !isnew ) { viol( "partial", "the file is neither the old nor the new model afterwards" ); goto out; }
            if ( !k && !isnew && !( there && is_net( "m.npz", nw ))) { viol( "success", "without any failure the file is not the new model" ); goto out; }
            if ( k && back && same && r[1] && !msg && !H_ASAN ) { viol( "silent", "the model was not saved and nothing was said" ); goto out; }
            stat_add( !back ? "ended_by_an_assertion" : isnew ? "new_there" : "old_kept", 1 ); cover( h_mix( k * 2 + on_ ) ^ nw->n_layers * 131 + there );
        }
    }
    if ( c % 19 == 0 ) sample( "a network of %d layers saved over %s: %ld allocations", nw->n_layers, there ? "an older one" : "nothing", N );
out:
    unlink( "m.npz" ); { DIR *d = opendir( "." ); struct dirent *e; while (( e = readdir( d ))) if ( !strncmp( e->d_name, "m.npz", 5 )) unlink( e->d_name ); closedir( d ); }
    neuralnet_free( nw ); neuralnet_free( od ); free( ob );
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_quiet();
    if ( chdir( h_dir )) { perror( h_dir ); return 3; }
    fflush( stderr ); 
    if ( H_ASAN ) { /* reports go to the real stderr; what is said is looked at natively */ int s = dup( 2 ); (void) s; errfd = open( "said", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600 ); dup2( errfd, 1 ); }
    else { errfd = memfd_create( "said", 0 ); fcntl( errfd, F_SETFL, O_APPEND ); outfd = dup( 2 ); dup2( errfd, 1 ); dup2( errfd, 2 ); }
    setvbuf( stdout, NULL, _IONBF, 0 );
    h_begin( -1 ); cover( 1 ); stat_add( "allocations", 0 );
    by_net = neuralnet_create( 3, INT_ARRAY( 7, 9, 5, 3 ), STR_ARRAY( "relu", "tanh", "softmax" )); fill_params( by_net );
    neuralnet_save( by_net, "by.npz" ); by_arr = npy_array_list_load( "by.npz" ); by_hash = bystanders();
    get_activation_func( "warm@/nonexistent" ); said();
    for ( long c = h_from; c < h_to; c++ ) { h_begin( c ); if ( !strcmp( h_mode, "oom" )) oom( c ); else if ( !strcmp( h_mode, "saving" )) saving( c ); else sizes( c ); }
    h_finish(); return 0;
}
