/* exp.h - plain descriptions of arrays and models, exchanged with the Python monitors */
#ifndef EXP_H
#define EXP_H
#include "h.h"
#include "npy_array.h"
#include "npy_array_list.h"
typedef struct { char *name; int type, endian, fortran, ndim; uint64_t elem, shape[8], nbytes; char *data; } earr;
typedef struct { uint32_t n, opt[4]; earr *a; } eset;
static void xread( void *p, size_t n, FILE *f ) { if ( n && fread( p, 1, n, f ) != n ) { fprintf( stderr, "short description\n" ); exit( 3 ); } }
__attribute__((unused)) static bool eset_read( const char *path, eset *s )
{
    FILE *f = fopen( path, "rb" ); if ( !f ) return false;
    xread( &s->n, 4, f ); xread( s->opt, 16, f ); s->a = calloc( s->n + 1, sizeof(earr) );
    for ( uint32_t i = 0; i < s->n; i++ ) {
        earr *a = s->a + i; uint32_t l; unsigned char c[4];
        xread( &l, 4, f ); a->name = calloc( l + 1, 1 ); xread( a->name, l, f );
        xread( c, 4, f ); a->type = c[0]; a->endian = c[1]; a->fortran = c[2]; a->ndim = c[3];
        xread( &a->elem, 8, f ); xread( a->shape, 64, f ); xread( &a->nbytes, 8, f );
        a->data = malloc( a->nbytes + 1 ); xread( a->data, a->nbytes, f );
    }
    fclose( f ); return true;
}
__attribute__((unused)) static void eset_free( eset *s ) { for ( uint32_t i = 0; i < s->n; i++ ) { free( s->a[i].name ); free( s->a[i].data ); } free( s->a ); }
__attribute__((unused)) static void earr_write( FILE *f, const char *name, const npy_array_t *m )
{
    uint32_t l = strlen( name ); uint64_t e = m->elem_size, nb = npy_array_calculate_datasize( m ), sh[8] = { 0 };
    unsigned char c[4] = { m->typechar, m->endianness, m->fortran_order, m->ndim };
    for ( int i = 0; i < m->ndim && i < 8; i++ ) sh[i] = m->shape[i];
    fwrite( &l, 4, 1, f ); fwrite( name, 1, l, f ); fwrite( c, 4, 1, f ); fwrite( &e, 8, 1, f ); fwrite( sh, 64, 1, f ); fwrite( &nb, 8, 1, f );
    if ( nb > 200u << 20 ) nb = 200u << 20;
    fwrite( m->data, 1, nb, f );
}
/* what differs; NULL if nothing */
__attribute__((unused)) static const char *earr_cmp( const earr *a, const npy_array_t *m, bool endian )
{
    static char w[300];
    if ( m->typechar != a->type ) { snprintf( w, sizeof w, "type '%c' instead of '%c'", m->typechar, a->type ); return w; }
    if ( m->elem_size != a->elem ) { snprintf( w, sizeof w, "element size %zu instead of %llu", m->elem_size, (unsigned long long) a->elem ); return w; }
    if ( endian && m->endianness != a->endian ) { snprintf( w, sizeof w, "byte order '%c' instead of '%c'", m->endianness, a->endian ); return w; }
    if ( m->fortran_order != a->fortran ) return "memory order";
    if ( m->ndim != a->ndim ) { snprintf( w, sizeof w, "%d dimensions instead of %d", m->ndim, a->ndim ); return w; }
    for ( int i = 0; i < a->ndim; i++ ) if ( m->shape[i] != a->shape[i] ) { snprintf( w, sizeof w, "shape[%d] %zu instead of %llu", i, m->shape[i], (unsigned long long) a->shape[i] ); return w; }
    if ( npy_array_calculate_datasize( m ) != a->nbytes ) { snprintf( w, sizeof w, "data size %zu instead of %llu", npy_array_calculate_datasize( m ), (unsigned long long) a->nbytes ); return w; }
    if ( a->nbytes && memcmp( m->data, a->data, a->nbytes )) { uint64_t k = 0; while ( m->data[k] == a->data[k] ) k++; snprintf( w, sizeof w, "data from byte %llu of %llu", (unsigned long long) k, (unsigned long long) a->nbytes ); return w; }
    return NULL;
}
static npy_array_t earr_npy( const earr *a, bool endian )
{
    npy_array_t m = { 0 }; m.data = a->data; m.ndim = a->ndim; m.typechar = a->type; m.elem_size = a->elem; m.fortran_order = a->fortran;
    m.endianness = endian ? a->endian : 0;
    for ( int i = 0; i < a->ndim; i++ ) m.shape[i] = a->shape[i];
    return m;
}
#endif
