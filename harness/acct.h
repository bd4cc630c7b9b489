/* acct.h - what the process holds: heap bytes, open files, mapped files */
#ifndef ACCT_H
#define ACCT_H
#include "h.h"
#include <dirent.h>
#if H_ASAN
extern size_t __sanitizer_get_current_allocated_bytes( void );
#endif
typedef struct { size_t heap; int fds, maps; } acct_t;
__attribute__((unused)) static acct_t h_acct( void )
{
    acct_t a = { 0 };
    static char buf[1 << 16];
    int fd = open( "/proc/self/maps", O_RDONLY );     /* no stdio: nothing is allocated here */
    size_t dl = strlen( h_dir ); ssize_t n; size_t have = 0;
    while ( fd >= 0 && ( n = read( fd, buf + have, sizeof buf - 1 - have )) > 0 ) {
        have += n; buf[have] = 0; char *l = buf, *e;
        while (( e = strchr( l, '\n' ))) { *e = 0; char *s = strchr( l, '/' ); if ( s && !strncmp( s, h_dir, dl )) a.maps++; l = e + 1; }
        have = strlen( l ); memmove( buf, l, have );
    }
    if ( fd >= 0 ) close( fd );
    for ( int i = 0; i < 256; i++ ) if ( fcntl( i, F_GETFD ) >= 0 ) a.fds++;
#if H_ASAN
    a.heap = __sanitizer_get_current_allocated_bytes();
#else
    struct mallinfo2 m = mallinfo2(); a.heap = m.uordblks + m.hblkhd;
#endif
    return a;
}
/* b after a: what is held that was not before? */
__attribute__((unused)) static bool acct_leak( const acct_t *a, const acct_t *b, char *why )
{
    if ( b->heap > a->heap ) { sprintf( why, "%zu bytes of heap", b->heap - a->heap ); return true; }
    if ( b->fds > a->fds ) { sprintf( why, "%d open files", b->fds - a->fds ); return true; }
    if ( b->maps > a->maps ) { sprintf( why, "%d mapped files", b->maps - a->maps ); return true; }
    return false;
}
/* After each repetition (0, 1, ...) of something: is another one needed? Three are enough when the third kept nothing;
 * else it is repeated to see whether that goes on or was the heap's own affair (chunks are not cut to the byte). */
enum { ACCT_REPS = 11 };
__attribute__((unused)) static bool acct_again( acct_t *a, int rep )
{
    char why[100];
    a[rep] = h_acct();
    if ( rep < 2 ) return true;
    if ( rep == 2 ) return acct_leak( &a[1], &a[2], why );
    return rep < ACCT_REPS - 1;
}
__attribute__((unused)) static bool acct_verdict( const acct_t *a, int last, char *why )
{
    if ( last < ACCT_REPS - 1 ) return false;
    const acct_t *x = a + 1, *y = a + last;
    if ( y->heap >= x->heap + 128 ) { sprintf( why, "%zu bytes of heap in %d times", y->heap - x->heap, last - 1 ); return true; }
    if ( y->fds > x->fds + 1 ) { sprintf( why, "%d open files in %d times", y->fds - x->fds, last - 1 ); return true; }
    if ( y->maps > x->maps + 1 ) { sprintf( why, "%d mapped files in %d times", y->maps - x->maps, last - 1 ); return true; }
    return false;
}
#define NO_TCACHE "glibc.malloc.tcache_count=0"
#endif
