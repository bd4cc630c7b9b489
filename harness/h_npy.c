/* C12, C13: arrays in files. argv[8]: directory with the cases, written by the Python monitor. */
#include "h.h"
#include "acct.h"
#include "exp.h"
static const char *dir;
static char path[5000], path2[5000];
#define P( ... ) ( snprintf( path, sizeof path, "%s/", dir ), snprintf( path + strlen( path ), 400, __VA_ARGS__ ), path )

static void cmp1( const char *what, const earr *a, const npy_array_t *m, bool endian )
{
    const char *d = earr_cmp( a, m, endian );
    if ( d ) viol( "differs", "%s: array '%.40s' (%c%llu, %d dimensions%s): %s", what, a->name, a->type, (unsigned long long) a->elem, a->ndim, a->fortran ? ", fortran order" : "", d );
}
static void cmplist( const char *what, const eset *s, npy_array_list_t *l, const char *suffix, bool endian )
{
    if ( !l && s->n ) { viol( "refused", "%s: cannot be loaded", what ); return; }
    if ( npy_array_list_length( l ) != s->n ) { viol( "members", "%s: %zu arrays instead of %u", what, npy_array_list_length( l ), s->n ); return; }
    npy_array_list_t *p = l;
    for ( uint32_t i = 0; i < s->n; i++, p = p->next ) {
        char nm[700]; snprintf( nm, sizeof nm, "%s%s", s->a[i].name, suffix );
        if ( !p->filename || strcmp( p->filename, nm )) viol( "name", "%s: array %u is called '%.60s' instead of '%.60s'", what, i, p->filename ? p->filename : "(null)", nm );
        cmp1( what, s->a + i, p->array, endian );
    }
}
/* is a file of ours still mapped or open? */
static void check_given_back( void )
{
    static char l[5000]; FILE *f = fopen( "/proc/self/maps", "r" );
    while ( f && fgets( l, sizeof l, f )) if ( strstr( l, dir )) { l[strcspn( l, "\n" )] = 0; viol( "leak", "still mapped after all was freed: %.40s ... %s", l, strrchr( l, '/' )); break; }
    if ( f ) fclose( f );
    for ( int fd = 3; fd < 64; fd++ ) { char p[40]; snprintf( p, sizeof p, "/proc/self/fd/%d", fd ); ssize_t k = readlink( p, l, sizeof l - 1 ); if ( k > 0 && ( l[k] = 0, strstr( l, dir ))) { viol( "leak", "still open after all was freed: %s", strrchr( l, '/' )); break; } }
    stat_add( "mappings_and_descriptors_checked", 1 );
}
/* what npy_array_dump() says about an array: the numbers, in this order, and the memory order */
static void check_dump( const npy_array_t *m )
{
    static int mem = -1; if ( mem < 0 ) mem = memfd_create( "dump", MFD_CLOEXEC );
    fflush( stdout ); int old = dup( 1 ); if ( ftruncate( mem, 0 )) abort(); lseek( mem, 0, SEEK_SET ); dup2( mem, 1 );
    npy_array_dump( m ); fflush( stdout ); dup2( old, 1 ); close( old );
    char b[2000]; ssize_t k = pread( mem, b, sizeof b - 1, 0 ); b[k < 0 ? 0 : k] = 0;
    unsigned long long want[11], got[40]; int n = 0, q = 0;
    want[n++] = m->ndim; for ( int i = 0; i < m->ndim; i++ ) { if ( m->shape[i] > 0x7fffffff ) return; want[n++] = m->shape[i]; } want[n++] = m->elem_size;
    for ( char *p = b; *p && q < 40; ) { if ( *p >= '0' && *p <= '9' ) got[q++] = strtoull( p, &p, 10 ); else p++; }
    bool ok = q == n && !memcmp( want, got, n * sizeof *want ) && !strstr( b, "True" ) == !m->fortran_order; char t[4] = { '\'', m->typechar, '\'', 0 };
    if ( !ok || !strstr( b, t )) viol( "dump", "an array of type %s%zu, %d dimensions, the first %zu, is described as: %.300s", t, m->elem_size, m->ndim, m->shape[0], b );
    stat_add( "descriptions_checked", 1 );
}
static const int comp_id[] = { 0, 8, 12, -1 };
static void case_arrays( long c )
{
    eset s; if ( !eset_read( P( "c%ld.exp", c ), &s )) { fprintf( stderr, "no %s\n", path ); exit( 3 ); }
    bool endian = s.opt[2] & 1;       /* arrays are saved with their byte order given or left to be guessed (native arrays only) */
    int over = ( s.opt[2] >> 1 ) & 3; bool nameless = s.opt[2] & 8, prepend = s.opt[2] & 16;
    cur( "%u arrays, first %c%llu %dD, compression %d level %d", s.n, s.n ? s.a[0].type : '-', s.n ? (unsigned long long) s.a[0].elem : 0, s.n ? s.a[0].ndim : 0, comp_id[s.opt[0]], s.opt[1] );
    for ( uint32_t i = 0; i < s.n; i++ ) {
        /* written by numpy */
        P( "c%ld_%u.npy", c, i );
        npy_array_t *m = npy_array_load( path );
        if ( !m ) viol( "refused", "a file of numpy cannot be loaded: '%s' array %u (%c%llu, %d dimensions)", path, i, s.a[i].type, (unsigned long long) s.a[i].elem, s.a[i].ndim );
        else { cmp1( "npy_array_load of a file of numpy", s.a + i, m, true ); if ( i < 2 ) check_dump( m ); npy_array_free( m ); }
        m = npy_array_mmap( path );
        if ( !m ) viol( "refused", "a file of numpy cannot be mapped: array %u (%c%llu, %d dimensions)", i, s.a[i].type, (unsigned long long) s.a[i].elem, s.a[i].ndim );
        else { cmp1( "npy_array_mmap of a file of numpy", s.a + i, m, true ); npy_array_free( m ); }
        /* written here */
        npy_array_t w = earr_npy( s.a + i, endian ), w0 = w;
        P( "o%ld_%u.npy", c, i );
        if ( over ) { FILE *f = fopen( path, "wb" ); for ( int k = 0; k < 9000 * over; k++ ) fputc( 'x', f ); fclose( f ); }
        npy_array_save( path, &w );
        if ( memcmp( &w, &w0, sizeof w )) viol( "changed", "saving changed the array" );
        m = npy_array_load( path );
        if ( !m ) viol( "refused", "a file written here cannot be loaded: array %u (%c%llu, %d dimensions)", i, s.a[i].type, (unsigned long long) s.a[i].elem, s.a[i].ndim );
        else { cmp1( "npy_array_load of a file written here", s.a + i, m, true ); npy_array_free( m ); }
        m = npy_array_mmap( path );
        if ( !m ) viol( "refused", "a file written here cannot be mapped: array %u (%c%llu, %d dimensions)", i, s.a[i].type, (unsigned long long) s.a[i].elem, s.a[i].ndim );
        else { cmp1( "npy_array_mmap of a file written here", s.a + i, m, true ); npy_array_free( m ); }
        h_evals++;
        cover( h_hash( (uint64_t[]){ s.a[i].type, s.a[i].elem, s.a[i].ndim, s.a[i].fortran, s.a[i].shape[0], s.a[i].endian }, 48, 0 ));
    }
    npy_array_list_t *l = npy_array_list_load( P( "c%ld.npz", c ));
    if ( s.n || l ) cmplist( s.opt[3] ? "compressed archive of numpy" : "archive of numpy", &s, l, ".npy", true );
    if ( l ) npy_array_list_free( l );
    if ( s.n && !( s.opt[2] & 32 )) {
        npy_array_list_t *sv = NULL;
        for ( uint32_t k = 0; k < s.n; k++ ) {
            uint32_t i = prepend ? s.n - 1 - k : k;
            npy_array_t *m = malloc( sizeof *m ); *m = earr_npy( s.a + i, endian );
            char *d = malloc( s.a[i].nbytes + 1 ); memcpy( d, s.a[i].data, s.a[i].nbytes ); m->data = d;
            size_t h = strlen( s.a[i].name ) / 2; char half[200]; snprintf( half, sizeof half, "%.*s", (int) h, s.a[i].name );
            sv = prepend ? npy_array_list_prepend( sv, m, "%s%s", half, s.a[i].name + h ) : npy_array_list_append( sv, m, "%s%s", half, s.a[i].name + h );
        }
        if ( npy_array_list_length( sv ) != s.n ) viol( "members", "%zu arrays in a list of %u", npy_array_list_length( sv ), s.n );
        for ( int pass = 0; pass < 2; pass++ ) {
            snprintf( path2, sizeof path2, "%s/%c%ld.npz", dir, pass ? 'p' : 'o', c );
            if ( over ) { FILE *f = fopen( path2, "wb" ); if ( over == 2 ) { /* an older archive */
                fclose( f ); npy_array_t q = { 0 }; static char z[5000]; q.data = z; q.ndim = 1; q.shape[0] = 5000; q.typechar = 'i'; q.elem_size = 1;
                npy_array_list_t e = { &q, "old_member", NULL }; npy_array_list_save( path2, &e ); } else fclose( f ), unlink( path2 ); }
            if ( nameless && pass ) { int k = 0; for ( npy_array_list_t *p = sv; p; p = p->next, k++ ) { free( p->filename ); p->filename = NULL; free( s.a[k].name ); s.a[k].name = malloc( 40 ); sprintf( s.a[k].name, "arr_%d.npy", k ); } }
            int n = pass ? npy_array_list_save_compressed( path2, sv, comp_id[s.opt[0]], s.opt[1] ) : npy_array_list_save( path2, sv );
            if ( n != (int) s.n ) viol( "count", "saving %u arrays returned %d", s.n, n );
            cmplist( "the list after it was saved", &s, sv, "", false );
            l = npy_array_list_load( path2 );
            cmplist( pass ? "compressed archive written here" : "archive written here", &s, l, "", true );
            if ( l ) npy_array_list_free( l );
        }
        npy_array_list_free( sv );
    }
    if ( h_case % 97 == 0 && s.n ) sample( "%u arrays, first '%s' %c%llu %dD %llu bytes, compression %d", s.n, s.a[0].name, s.a[0].type, (unsigned long long) s.a[0].elem, s.a[0].ndim, (unsigned long long) s.a[0].nbytes, comp_id[s.opt[0]] );
    stat_add( "arrays", s.n ); check_given_back();
    eset_free( &s );
}

static volatile unsigned sink;
static void touch( const npy_array_t *m ) { unsigned x = 0; size_t n = npy_array_calculate_datasize( m ); for ( size_t i = 0; i < n; i++ ) x += (unsigned char) m->data[i]; sink += x; }
/* any bytes: load, map and open as archive; what came out goes to the monitor */
static void case_hostile( long c )
{
    char in[1000]; snprintf( in, sizeof in, "%s/f%ld", dir, c );
    FILE *out = NULL;
    static const char *ops[] = { "npy_array_load", "npy_array_mmap", "npy_array_list_load" };
    snprintf( path2, sizeof path2, "%s/r%ld", dir, c );
    out = fopen( path2, "wb" );
    for ( int op = 0; op < 3; op++ ) {
        acct_t a[ACCT_REPS]; char why[100]; int last = 0;
        cur( "%s of %s", ops[op], in );
        for ( int rep = 0; ; rep++ ) {
            uint32_t n = 0; npy_array_t *m = NULL; npy_array_list_t *l = NULL;
            scribble( rep % 3 );
            if ( op < 2 ) { m = op ? npy_array_mmap( in ) : npy_array_load( in ); n = m != NULL; if ( m ) touch( m ); }
            else { l = npy_array_list_load( in ); n = npy_array_list_length( l ); for ( npy_array_list_t *p = l; p; p = p->next ) touch( p->array ); }
            if ( rep == 0 ) {
                fwrite( &n, 4, 1, out );
                if ( m ) earr_write( out, "", m );
                for ( npy_array_list_t *p = l; p; p = p->next ) earr_write( out, p->filename ? p->filename : "", p->array );
                fflush( out );
                if ( n ) stat_add( op == 2 ? "archives_loaded" : op ? "arrays_mapped" : "arrays_loaded", 1 ); else stat_add( "refused", 1 );
            }
            if ( m ) npy_array_free( m );
            if ( l ) npy_array_list_free( l );
            last = rep; if ( !acct_again( a, rep )) break;
        }
        if ( acct_verdict( a, last, why )) viol( "leak", "%s keeps %s", ops[op], why );
        h_evals++;
    }
    fclose( out );
}
/* arrays beyond 2^31 and 2^32 bytes, from memory that repeats itself */
#include <pthread.h>
typedef struct { const char *fn; const unsigned char *per; size_t period, total, bad; unsigned char head[4096]; size_t headlen; bool ok; } drain_t;
static void *drain( void *v )       /* read the file that is being written, and compare */
{
    drain_t *d = v; int fd = open( d->fn, O_RDONLY ); static unsigned char b[1 << 20]; ssize_t k; size_t hl = 0, pos = 0; unsigned char pre[10]; size_t got = 0;
    d->bad = (size_t) -1; d->ok = true;
    while (( k = read( fd, b, sizeof b )) > 0 ) {
        size_t i = 0; d->total += k;
        while ( i < (size_t) k && got < 10 ) { pre[got] = b[i]; d->head[got++] = b[i++]; if ( got == 10 ) hl = pre[8] | pre[9] << 8; }
        while ( i < (size_t) k && got < 10 + hl ) { if ( got < sizeof d->head ) d->head[got] = b[i]; got++; i++; }
        while ( i < (size_t) k ) {
            size_t o = pos % d->period, n = d->period - o; if ( n > k - i ) n = k - i;
            if ( d->ok && memcmp( b + i, d->per + o, n )) { d->ok = false; size_t q = 0; while ( b[i+q] == d->per[o+q] ) q++; d->bad = pos + q; }
            pos += n; i += n;
        }
    }
    d->headlen = got; d->total = pos; close( fd ); return NULL;
}
static void case_big( long c )
{
    char fn[600]; npy_array_t w; memset( &w, 0, sizeof w );
    if ( c % 4 ) {      /* sizes only */
        for ( int rep = 0; rep < 2000; rep++ ) {
            memset( &w, 0, sizeof w ); w.ndim = rndi( 0, 8 ); w.elem_size = 1 << rndi( 0, 4 ); w.typechar = w.elem_size == 16 ? 'c' : w.elem_size == 1 ? 'u' : "fiu"[rndi( w.elem_size == 1, 2 )]; w.fortran_order = chance( 0.5 ); w.endianness = w.elem_size == 1 ? '|' : '<';
            unsigned __int128 n = w.elem_size; bool none = chance( 0.1 ) && w.ndim > 1;       /* (no elements: the other dimensions can be anything) */
            if ( none ) { n = 0; for ( int i = 1; i < w.ndim; i++ ) w.shape[i] = rnd() >> rndi( 1, 63 ); } else for ( int i = 0; i < w.ndim; i++ ) { size_t x; do x = chance( 0.4 ) ? (size_t) rndi( 1, 9 ) : rnd() >> rndi( 1, 63 ); while ( !x || n * x >> 63 ); if ( chance( 0.01 )) x = 0; w.shape[i] = x; n *= x; if ( !n ) break; }
            cur( "an array of %d dimensions and %.6g bytes", w.ndim, (double) n );
            if ( npy_array_calculate_datasize( &w ) != (size_t) n ) { viol( "size", "an array of %zu bytes has a size of %zu", (size_t) n, npy_array_calculate_datasize( &w )); return; }
            char h[4096], ex[600]; size_t l = npy_array_get_header( &w, h ), p = 0;
            for ( int i = 0; i < w.ndim; i++ ) p += snprintf( ex + p, sizeof ex - p, "%zu", w.shape[i] ), ex[p++] = ',';
            if ( l % 64 ) { viol( "aligned", "the header of an array with %d dimensions is %zu bytes, not a multiple of 64 as the format has it", w.ndim, l ); return; }
            ex[p] = 0; char got[600] = ""; h[l] = 0; char *s = memmem( h, l, "'shape': (", 10 ), *e = s ? strchr( s, ')' ) : NULL; size_t q = 0;
            if ( !e ) { viol( "shape", "no shape in the header" ); return; }
            for ( s += 10; s < e; s++ ) if ( *s != ' ' ) got[q++] = *s;
            if ( q && got[q-1] != ',' ) got[q++] = ',';
            got[q] = 0;
            if ( strcmp( got, ex )) { viol( "shape", "an array of shape (%.100s) gets a header with (%.100s)", ex, got ); return; }
            h_evals++; cover( h_hash( w.shape, sizeof w.shape, w.elem_size ));
        }
        stat_add( "huge_shapes", 2000 ); return;
    }
    /* more than 4 GB, now and then only just */
    { FILE *f = fopen( "/proc/meminfo", "r" ); char l[200]; long kb = 0; while ( f && fgets( l, sizeof l, f )) sscanf( l, "MemAvailable: %ld", &kb ); if ( f ) fclose( f ); if ( kb && kb < 7 << 20 ) { stat_add( "too_little_memory_for_a_big_array", 1 ); return; } }
    size_t elem = 1 << rndi( 0, 3 ), total = ( (size_t) 1 << 32 ) + ( chance( 0.3 ) ? 0 : rnd() % ( 1 << 26 )), rows = rndi( 1, 70000 ); w.elem_size = elem; w.typechar = elem < 4 ? 'u' : 'f';
    w.ndim = 2; w.shape[0] = rows; w.shape[1] = total / elem / rows + 1; total = elem * w.shape[0] * w.shape[1];
    bigmap b = big_new( total / 4 + 1024, 257 ); size_t per = 257 * 4096; for ( size_t i = 0; i < per; i++ ) ((unsigned char*) b.p)[i] = rnd();
    w.data = (char*) b.p; cur( "an array of %zu x %zu of %zu bytes is saved", w.shape[0], w.shape[1], elem );
    snprintf( fn, sizeof fn, "%s/fifo%ld", dir, c ); unlink( fn ); if ( mkfifo( fn, 0600 )) { perror( fn ); exit( 3 ); }
    drain_t d = { .fn = fn, .per = (unsigned char*) b.p, .period = per }; pthread_t t; pthread_create( &t, NULL, drain, &d );
    npy_array_save( fn, &w ); pthread_join( t, NULL ); unlink( fn ); h_evals++;
    if ( d.total != total ) viol( "size", "an array of %zu bytes was saved in %zu", total, d.total );
    else if ( !d.ok ) viol( "differs", "byte %zu of %zu is different in the file", d.bad, total );
    stat_add( "bytes_saved_in_big_arrays", d.total );
    /* the same header with a file that is mostly a hole */
    snprintf( fn, sizeof fn, "%s/hole%ld", dir, c ); int fd = open( fn, O_RDWR | O_CREAT | O_TRUNC, 0600 );
    if ( write( fd, d.head, d.headlen ) != (ssize_t) d.headlen || ftruncate( fd, d.headlen + total )) { perror( fn ); exit( 3 ); }
    size_t at[40]; unsigned char v[40]; int m = 0; at[m++] = 0; at[m++] = total - 1; at[m++] = total / 2; at[m++] = ( 1ul << 31 ) - 1; at[m++] = 1ul << 31; at[m++] = ( 1ul << 32 ) - 1; while ( m < 40 ) at[m++] = rnd() % total;
    for ( int i = 0; i < m; i++ ) { v[i] = 1 + rnd() % 255; for ( int j = 0; j < i; j++ ) if ( at[j] == at[i] ) v[i] = v[j]; if ( pwrite( fd, v + i, 1, d.headlen + at[i] ) != 1 ) { perror( fn ); exit( 3 ); } }
    close( fd );
    for ( int k = 0; k < 2; k++ ) {
        cur( "a file of an array of %zu x %zu of %zu bytes is %s", w.shape[0], w.shape[1], elem, k ? "loaded" : "mapped" );
        npy_array_t *a = k ? npy_array_load( fn ) : npy_array_mmap( fn ); h_evals++;
        if ( !a ) { viol( "refused", "%s", h_cur ); continue; }
        if ( a->ndim != 2 || a->shape[0] != w.shape[0] || a->shape[1] != w.shape[1] || a->elem_size != elem || a->typechar != w.typechar ) viol( "differs", "%s: another shape or type", h_cur );
        else {
            for ( int i = 0; i < m; i++ ) if ( (unsigned char) a->data[at[i]] != v[i] ) { viol( "differs", "byte %zu of %zu is different when %s", at[i], total, k ? "loaded" : "mapped" ); break; }
            size_t nz = 0; for ( size_t i = 0; i < total; i += 1 << 12 ) nz += a->data[i] != 0; if ( nz > 40 ) viol( "differs", "there is more than zeros in a hole" );
        }
        npy_array_free( a );
    }
    unlink( fn ); big_free( &b ); stat_add( "big_arrays", 1 ); sample( "%zu x %zu x %zu bytes", w.shape[0], w.shape[1], elem ); cover( total );
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_dir = dir = argv[8];
    int fd = open( "/dev/null", O_WRONLY ); dup2( fd, 1 ); if ( !H_ASAN ) dup2( fd, 2 ); close( fd );
    for ( long c = h_from; c < h_to; c++ ) { h_begin( c ); if ( !strcmp( h_mode, "arrays" )) case_arrays( c ); else if ( !strcmp( h_mode, "big" )) case_big( c ); else case_hostile( c ); }
    h_finish(); return 0;
}
