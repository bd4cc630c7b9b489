/* h.h - what all the harnesses share: reporting, random numbers, guarded buffers, poisoned stack. */
#ifndef H_H
#define H_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>

#if defined(__SANITIZE_ADDRESS__)
#define H_ASAN 1
#include <sanitizer/asan_interface.h>
#else
#define H_ASAN 0
#endif
#if defined(__SANITIZE_THREAD__)
#define H_TSAN 1
#else
#define H_TSAN 0
#endif

#ifndef MSAN
#define MSAN 0
#endif
#if MSAN        /* libzip is not instrumented: what it returns counts as initialised */
#include <sanitizer/msan_interface.h>
#include <zip.h>
#define ZW( type, name, decl, ... ) type __real_##name decl; type __wrap_##name decl { __msan_scoped_disable_interceptor_checks(); type r = __real_##name( __VA_ARGS__ ); __msan_scoped_enable_interceptor_checks();
ZW( zip_int64_t, zip_fread, ( zip_file_t *f, void *b, zip_uint64_t n ), f, b, n ) if ( r > 0 ) __msan_unpoison( b, r ); return r; }
ZW( const char *, zip_get_name, ( zip_t *z, zip_uint64_t i, zip_flags_t f ), z, i, f ) if ( r ) __msan_unpoison_string( r ); return r; }
ZW( zip_t *, zip_open, ( const char *f, int m, int *e ), f, m, e ) if ( e ) __msan_unpoison( e, sizeof *e ); return r; }
ZW( int, zip_close, ( zip_t *z ), z ) return r; }
ZW( zip_int64_t, zip_file_add, ( zip_t *z, const char *n, zip_source_t *s, zip_flags_t f ), z, n, s, f ) return r; }
ZW( zip_file_t *, zip_fopen_index, ( zip_t *z, zip_uint64_t i, zip_flags_t f ), z, i, f ) return r; }
zip_source_t *__real_zip_source_buffer_create( const void *, zip_uint64_t, int, zip_error_t * );
zip_source_t *__wrap_zip_source_buffer_create( const void *p, zip_uint64_t n, int f, zip_error_t *e ) { __msan_check_mem_is_initialized( p, n ); return __real_zip_source_buffer_create( p, n, f, e ); }    /* (what goes into archives) */
#endif

/* ------------------------------------------------------------------ reporting */
static FILE *h_out;
static char *h_cur;               /* shared file: what the harness is doing right now */
static uint64_t h_evals, h_nviol;
static uint64_t *h_set; static size_t h_setcap, h_setn;
static int h_nsamples;
static uint64_t h_seed; static long h_from, h_to, h_case; static const char *h_mode = "";
static const char *h_dir = ".";   /* scratch directory */
typedef struct { char name[48]; uint64_t n; } h_stat_t;
static h_stat_t h_stats[64]; static int h_nstats;

static inline uint64_t h_mix( uint64_t z )
{
    z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
static inline uint64_t h_hash( const void *p, size_t n, uint64_t h )
{
    const unsigned char *c = p;
    h ^= 0xcbf29ce484222325ull;
    for ( size_t i = 0; i < n; i++ ) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h_mix( h );
}
__attribute__((unused)) static void cover( uint64_t h )
{
    if ( !h ) h = 1;
    if ( h_setn * 2 >= h_setcap ) {
        size_t nc = h_setcap ? h_setcap * 2 : 4096; uint64_t *ns = calloc( nc, 8 );
        for ( size_t i = 0; i < h_setcap; i++ ) if ( h_set[i] ) {
            size_t k = h_set[i] & (nc-1); while ( ns[k] ) k = (k+1) & (nc-1); ns[k] = h_set[i]; }
        free( h_set ); h_set = ns; h_setcap = nc;
    }
    size_t k = h_mix(h) & (h_setcap-1);
    h = h_mix(h); if ( !h ) h = 1; k = h & (h_setcap-1);
    while ( h_set[k] ) { if ( h_set[k] == h ) return; k = (k+1) & (h_setcap-1); }
    h_set[k] = h; h_setn++;
}
__attribute__((unused,format(printf,1,2))) static void cur( const char *fmt, ... )
{
    if ( !h_cur ) return;
    va_list ap; va_start( ap, fmt );
    int n = snprintf( h_cur, 64, "case %ld: ", h_case );
    vsnprintf( h_cur + n, 4000, fmt, ap ); va_end( ap );
}
__attribute__((unused,format(printf,1,2))) static void curadd( const char *fmt, ... )
{
    if ( !h_cur ) return;
    size_t l = strlen( h_cur ); if ( l > 3000 ) return;
    va_list ap; va_start( ap, fmt ); vsnprintf( h_cur + l, 1000, fmt, ap ); va_end( ap );
}
static void h_finish( void );
__attribute__((unused,format(printf,2,3))) static void viol( const char *key, const char *fmt, ... )
{
    char b[2048]; va_list ap; va_start( ap, fmt ); vsnprintf( b, sizeof b, fmt, ap ); va_end( ap );
    for ( char *c = b; *c; c++ ) if ( *c == '\n' || *c == '\t' ) *c = ' ';
    char cc[700] = ""; if ( h_cur ) { snprintf( cc, sizeof cc, "%s", h_cur ); for ( char *c = cc; *c; c++ ) if ( *c == '\n' || *c == '\t' ) *c = ' '; }
    fprintf( h_out, "V\t%s\t%ld\t%s\t[%s]\n", key, h_case, b, cc ); fflush( h_out );
    if ( ++h_nviol >= 8 ) { h_finish(); _exit( 0 ); }
}
__attribute__((unused,format(printf,1,2))) static void sample( const char *fmt, ... )
{
    if ( h_nsamples++ >= 4 ) return;
    char b[1024]; va_list ap; va_start( ap, fmt ); vsnprintf( b, sizeof b, fmt, ap ); va_end( ap );
    for ( char *c = b; *c; c++ ) if ( *c == '\n' || *c == '\t' ) *c = ' ';
    fprintf( h_out, "P\t%s\n", b ); fflush( h_out );
}
__attribute__((unused)) static void stat_add( const char *name, uint64_t n )
{
    for ( int i = 0; i < h_nstats; i++ ) if ( !strcmp( h_stats[i].name, name )) { h_stats[i].n += n; return; }
    if ( h_nstats < 64 ) { snprintf( h_stats[h_nstats].name, 48, "%s", name ); h_stats[h_nstats++].n = n; }
}
static void h_finish( void )
{
    fprintf( h_out, "E\t%llu\n", (unsigned long long) h_evals );
    for ( size_t i = 0; i < h_setcap; i++ ) if ( h_set[i] ) fprintf( h_out, "D\t%llx\n", (unsigned long long) h_set[i] );
    for ( int i = 0; i < h_nstats; i++ ) fprintf( h_out, "S\t%s\t%llu\n", h_stats[i].name, (unsigned long long) h_stats[i].n );
    fprintf( h_out, "OK\n" );
    fclose( h_out );
}
/* argv: mode seed from to outfile curfile scratchdir */
static void h_init( int argc, char **argv )
{
    if ( argc < 8 ) { fprintf( stderr, "usage: %s mode seed from to outfile curfile scratch\n", argv[0] ); exit( 2 ); }
    h_mode = argv[1]; h_seed = strtoull( argv[2], NULL, 0 ); h_from = atol( argv[3] ); h_to = atol( argv[4] );
    h_out = fopen( argv[5], "w" ); if ( !h_out ) { perror( argv[5] ); exit( 2 ); }
    int fd = open( argv[6], O_RDWR | O_CREAT, 0600 );
    if ( fd < 0 || ftruncate( fd, 8192 ) ) { perror( argv[6] ); exit( 2 ); }
    h_cur = mmap( NULL, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ); close( fd );
    if ( h_cur == MAP_FAILED ) { perror( "mmap" ); exit( 2 ); }
    h_dir = argv[7];
}

/* ------------------------------------------------------------------ random numbers */
static uint64_t h_s[2];
static inline uint64_t rnd( void )
{
    uint64_t a = h_s[0], b = h_s[1]; h_s[0] = b; a ^= a << 23; a ^= a >> 17; a ^= b ^ (b >> 26); h_s[1] = a; return a + b;
}
static inline void rnd_seed( uint64_t s ) { h_s[0] = h_mix( s ); h_s[1] = h_mix( s ^ 0xabcdef ) | 1; }
static inline int rndi( int lo, int hi ) { return lo + (int)( rnd() % (uint64_t)( (int64_t) hi - lo + 1 )); }
static inline double rndu( void ) { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static inline bool chance( double p ) { return rndu() < p; }
static inline double rndn( void ) { double u = rndu() + 1e-300; return sqrt( -2 * log( u )) * cos( 2 * M_PI * rndu() ); }
/* start of a case: everything random in it follows from mode, seed and number */
static inline void h_begin( long c ) { h_case = c; rnd_seed( h_hash( h_mode, strlen( h_mode ), h_seed * 1000003ull + (uint64_t) c )); }
/* sizes that are interesting for SIMD code */
__attribute__((unused)) static int rnd_size( int max )
{
    int r;
    switch ( rndi( 0, 9 )) {
        case 0: r = 1; break;
        case 1: case 2: r = rndi( 1, 9 ); break;
        case 3: case 4: r = rndi( 1, 40 ); break;
        case 5: r = 8 * rndi( 1, 8 ); break;
        case 6: r = 16 * rndi( 1, 5 ) + rndi( -1, 1 ); break;
        case 7: r = 8 * rndi( 1, 9 ) + rndi( -1, 1 ); break;
        case 8: r = rndi( 1, 100 ); break;
        default: r = rndi( 1, max ); break;
    }
    if ( r > max ) r = 1 + r % max;
    return r < 1 ? 1 : r;
}

/* ------------------------------------------------------------------ guarded buffers */
#define NANPAT 0x7fc0dead      /* a quiet NaN */
typedef struct { float *p; size_t n; unsigned char *map; size_t len; unsigned char *lo, *hi; } gbuf;
static inline void fill_pat( void *a, void *b )  /* whole range [a,b), 4 byte pattern phase fixed on address */
{
    for ( unsigned char *p = a; p < (unsigned char*) b; p++ ) *p = (unsigned char)( 0x7fc0deadu >> (8 * ((uintptr_t) p & 3)));
}
/* off: offset from a 128 byte boundary in floats (0 = aligned); off < 0: the buffer ends at a guard page */
__attribute__((unused)) static gbuf gb_new( size_t n, int off )
{
    gbuf g = { 0 }; g.n = n;
    const size_t pg = 4096, bytes = n * sizeof(float);
#if H_ASAN
    int o = off < 0 ? (int)( (32 - n % 32) % 32 ) : off;
    size_t tot = (size_t) o * 4 + bytes;
    void *q = NULL; if ( posix_memalign( &q, 128, tot ? tot : 1 )) abort();
    g.map = q; g.len = tot;
    g.p = (float*)( g.map + (size_t) o * 4 );
    g.lo = g.map; g.hi = g.map + tot;
    for ( size_t i = 0; i < n; i++ ) { uint32_t v = NANPAT; memcpy( g.p + i, &v, 4 ); }
    if ( o ) ASAN_POISON_MEMORY_REGION( g.map, (size_t) o * 4 );
    (void) pg;
#else
    size_t data = ( bytes + 512 + pg - 1 ) / pg * pg;
    g.len = data + 2 * pg;
    g.map = mmap( NULL, g.len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
    if ( g.map == MAP_FAILED ) { perror( "mmap" ); abort(); }
    mprotect( g.map, pg, PROT_NONE ); mprotect( g.map + pg + data, pg, PROT_NONE );
    g.lo = g.map + pg; g.hi = g.lo + data;
    g.p = off < 0 ? (float*)( g.hi - bytes ) : (float*)( g.lo + 128 + (size_t) off * 4 );
    fill_pat( g.lo, g.hi );
#endif
#if MSAN
    __msan_poison( g.p, bytes );
#endif
    return g;
}
static inline bool gb_intact( const gbuf *g )
{
#if H_ASAN
    (void) g; return true;
#else
    for ( unsigned char *p = g->lo; p < g->hi; p++ ) {
        if ( p == (unsigned char*) g->p ) { p += g->n * 4; if ( p >= g->hi ) break; }
        if ( *p != (unsigned char)( 0x7fc0deadu >> (8 * ((uintptr_t) p & 3))) ) return false;
    }
    return true;
#endif
}
__attribute__((unused)) static void gb_poison( gbuf *g ) { for ( size_t i = 0; i < g->n; i++ ) { uint32_t v = NANPAT; memcpy( g->p + i, &v, 4 ); } }
__attribute__((unused)) static void gb_ro( gbuf *g, bool ro )
{
#if !H_ASAN
    mprotect( g->lo, g->hi - g->lo, ro ? PROT_READ : PROT_READ | PROT_WRITE );
#else
    (void) g; (void) ro;
#endif
}
__attribute__((unused)) static void gb_free( gbuf *g )
{
#if H_ASAN
    ASAN_UNPOISON_MEMORY_REGION( g->map, g->len ); free( g->map );
#else
    munmap( g->map, g->len );
#endif
    g->p = NULL; g->map = NULL;
}
/* n floats of address space that repeat the same period of memory over and over: data sets too big for the machine. period in pages */
typedef struct { float *p; size_t len, period; } bigmap;
__attribute__((unused)) static bigmap big_new( size_t n, size_t pages )
{
    bigmap b = { 0 }; b.period = pages * 1024; b.len = ( n * 4 + pages * 4096 - 1 ) / ( pages * 4096 ) * ( pages * 4096 );
    int fd = memfd_create( "big", 0 );
    if ( fd < 0 || ftruncate( fd, pages * 4096 )) { perror( "memfd" ); exit( 3 ); }
    unsigned char *a = mmap( NULL, b.len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if ( a == MAP_FAILED ) { perror( "mmap" ); exit( 3 ); }
    for ( size_t o = 0; o < b.len; o += pages * 4096 )
        if ( mmap( a + o, pages * 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) { perror( "mmap" ); exit( 3 ); }
    close( fd ); b.p = (float*) a; return b;
}
__attribute__((unused)) static void big_free( bigmap *b ) { munmap( b->p, b->len ); }
/* leave garbage (NaN, huge numbers) on the stack below us, so that use of uninitialised locals shows */
__attribute__((unused,noinline)) static void scribble( int kind )
{
    volatile uint32_t a[ H_TSAN ? 1024 : 48 * 1024 ];
    uint32_t v = kind == 0 ? NANPAT : kind == 1 ? 0x7f7f7f7f : 0xc2f0c2f0;
    for ( size_t i = 0; i < sizeof a / sizeof *a; i++ ) a[i] = v;
    __asm__ volatile( "" :: "r"( a ) : "memory" );
}
__attribute__((unused)) static void heap_poison( void ) { 
#if !H_ASAN && !H_TSAN
    mallopt( M_PERTURB, 0x80 );
#endif
}
static inline uint32_t fbits( float f ) { uint32_t u; memcpy( &u, &f, 4 ); return u; }
static inline float bitsf( uint32_t u ) { float f; memcpy( &f, &u, 4 ); return f; }
/* The library talks on stdout and stderr; the harness does not need it */
__attribute__((unused)) static void h_quiet( void )
{
    int fd = open( "/dev/null", O_WRONLY ); if ( fd >= 0 ) { fflush( stdout ); dup2( fd, 1 ); close( fd ); }
}
#endif
