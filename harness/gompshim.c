/* gompshim.c - stands in for libgomp: the members of a team are plain pthreads, so that ThreadSanitizer understands them, and they are
 * delayed at random. Work is handed out with relaxed atomics, which order nothing: only what OpenMP promises to order is ordered
 * (fork, join, barriers, critical sections, locks). A parallel region within another one has a team of one, as by default. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "gompshim.h"
#define RLX __ATOMIC_RELAXED
enum { NWORK = 64 };
typedef struct { long next, end, incr, chunk; int kind, state; unsigned long long unext, uend, uincr; bool up; int left; } work_t;
typedef struct team { int n; void (*fn)( void * ); void *data; pthread_barrier_t bar; bool hasbar; work_t work[NWORK]; int single[NWORK]; void *copy; uint64_t seed; } team_t;
typedef struct { team_t *t; int id; int nwork, nsingle; uint64_t r; } self_t;
static _Thread_local self_t *self; static _Thread_local int icv; static int icv_default;
static uint64_t g_seed = 1, g_trace, g_regions, g_members, g_events, g_region_no; static int g_delays;
static uint64_t mix( uint64_t z ) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void shim_config( uint64_t seed, int delays ) { __atomic_store_n( &g_seed, seed, RLX ); __atomic_store_n( &g_delays, delays, RLX ); __atomic_store_n( &g_region_no, 0, RLX ); }
uint64_t shim_trace( void ) { return __atomic_exchange_n( &g_trace, 0, RLX ); }
void shim_counts( uint64_t *r, uint64_t *m, uint64_t *e ) { *r = __atomic_load_n( &g_regions, RLX ); *m = __atomic_load_n( &g_members, RLX ); *e = __atomic_load_n( &g_events, RLX ); }
static void event( int what )
{
    int id = self ? self->id : 0;
    __atomic_fetch_add( &g_events, 1, RLX );
    uint64_t o = __atomic_load_n( &g_trace, RLX ); __atomic_store_n( &g_trace, mix( o * 31 + id * 16 + what ), RLX );   /* (lossy, and good enough to tell schedules apart) */
}
static void delay( int what )
{
    event( what );
    int d = __atomic_load_n( &g_delays, RLX ); if ( !d || !self ) return;
    uint64_t r = self->r = mix( self->r + 1 );
    switch ( r & 7 ) {
        case 0: case 1: sched_yield(); break;
        case 2: for ( int i = 0; i < (int)( r >> 8 & 15 ); i++ ) sched_yield(); break;
        case 3: case 4: if ( d > 1 ) { struct timespec ts = { 0, 1000 * ( r >> 8 & 127 ) }; nanosleep( &ts, NULL ); } break;
        case 5: if ( d > 1 && ( r >> 20 & 7 ) == 0 ) { struct timespec ts = { 0, 1000000 }; nanosleep( &ts, NULL ); } break;
        default: break;
    }
}
static int threads( void )
{
    if ( icv ) return icv;
    if ( !icv_default ) { const char *e = getenv( "OMP_NUM_THREADS" ); int n = e ? atoi( e ) : (int) sysconf( _SC_NPROCESSORS_ONLN ); __atomic_store_n( &icv_default, n > 0 ? n : 1, RLX ); }
    return __atomic_load_n( &icv_default, RLX );
}
static void run_member( team_t *t, int id )
{
    self_t me = { t, id, 0, 0, mix( t->seed + id ) }, *old = self; self = &me;
    delay( 1 ); t->fn( t->data ); delay( 2 );
    self = old;
}
typedef struct { team_t *t; int id; } arg_t;
static void *member( void *a ) { arg_t *x = a; run_member( x->t, x->id ); return NULL; }
static void team_run( team_t *t, void (*fn)( void * ), void *data, unsigned nt )
{
    int n = self ? 1 : nt ? (int) nt : threads(); if ( n > 256 ) n = 256; if ( n < 1 ) n = 1;
    t->n = n; t->fn = fn; t->data = data; t->seed = mix( __atomic_load_n( &g_seed, RLX ) * 1000003 + __atomic_fetch_add( &g_region_no, 1, RLX ));
    __atomic_fetch_add( &g_regions, 1, RLX ); __atomic_fetch_add( &g_members, n, RLX );
    if ( n > 1 ) pthread_barrier_init( &t->bar, NULL, n );
    pthread_t th[256]; arg_t a[256]; int order[256]; uint64_t r = t->seed;
    for ( int i = 1; i < n; i++ ) order[i] = i;
    for ( int i = n - 1; i > 1; i-- ) { r = mix( r ); int j = 1 + r % i, x = order[i]; order[i] = order[j]; order[j] = x; }
    for ( int i = 1; i < n; i++ ) { a[i] = (arg_t){ t, order[i] }; if ( pthread_create( th + i, NULL, member, a + i )) { perror( "pthread_create" ); abort(); } }
    run_member( t, 0 );
    for ( int i = 1; i < n; i++ ) pthread_join( th[i], NULL );
    if ( n > 1 ) pthread_barrier_destroy( &t->bar );
}
static team_t *new_team( void ) { team_t *t = calloc( 1, sizeof *t ); if ( !t ) abort(); return t; }
void GOMP_parallel( void (*fn)( void * ), void *data, unsigned nt, unsigned flags ) { (void) flags; team_t *t = new_team(); team_run( t, fn, data, nt ); free( t ); }
/* ---- barriers */
void GOMP_barrier( void ) { if ( self && self->t->n > 1 ) { delay( 3 ); pthread_barrier_wait( &self->t->bar ); } }
/* ---- critical sections, atomics, locks */
static pthread_mutex_t m_atomic = PTHREAD_MUTEX_INITIALIZER, m_critical = PTHREAD_MUTEX_INITIALIZER, m_names = PTHREAD_MUTEX_INITIALIZER;
void GOMP_atomic_start( void ) { delay( 4 ); pthread_mutex_lock( &m_atomic ); event( 5 ); }
void GOMP_atomic_end( void ) { pthread_mutex_unlock( &m_atomic ); }
void GOMP_critical_start( void ) { delay( 6 ); pthread_mutex_lock( &m_critical ); event( 7 ); }
void GOMP_critical_end( void ) { pthread_mutex_unlock( &m_critical ); }
void GOMP_critical_name_start( void **p )
{
    delay( 6 ); pthread_mutex_lock( &m_names ); if ( !*p ) { *p = malloc( sizeof( pthread_mutex_t )); pthread_mutex_init( *p, NULL ); } pthread_mutex_t *m = *p; pthread_mutex_unlock( &m_names );
    pthread_mutex_lock( m ); event( 7 );
}
void GOMP_critical_name_end( void **p ) { pthread_mutex_t *m = *p; pthread_mutex_unlock( m ); }
void GOMP_ordered_start( void ) { } void GOMP_ordered_end( void ) { }
/* ---- single */
bool GOMP_single_start( void ) { if ( !self ) return true; delay( 8 ); return __atomic_fetch_add( &self->t->single[self->nsingle++ % NWORK], 1, RLX ) % self->t->n == 0; }
void *GOMP_single_copy_start( void ) { if ( !self || GOMP_single_start()) return NULL; pthread_barrier_wait( &self->t->bar ); void *p = self->t->copy; pthread_barrier_wait( &self->t->bar ); return p; }
void GOMP_single_copy_end( void *p ) { if ( !self || self->t->n < 2 ) return; self->t->copy = p; pthread_barrier_wait( &self->t->bar ); pthread_barrier_wait( &self->t->bar ); }
/* ---- work shares: the first member that comes sets one up; who sets it up does so under a lock of its own (what libgomp does too) */
static _Thread_local work_t solo; static _Thread_local work_t *mine;
static work_t *share( bool *first )
{
    if ( !self || self->t->n == 1 ) { memset( &solo, 0, sizeof solo ); *first = true; return mine = &solo; }
    return mine = &self->t->work[self->nwork++ % NWORK];
}
static work_t *setup( long start, long end, long incr, long chunk )
{
    bool first = false; work_t *w = share( &first ); int nt = self ? self->t->n : 1;
    int st = 0;
    if ( first || __atomic_compare_exchange_n( &w->state, &st, 1, false, RLX, RLX )) {
        __atomic_store_n( &w->end, end, RLX ); __atomic_store_n( &w->incr, incr, RLX ); __atomic_store_n( &w->chunk, chunk > 0 ? chunk : 1, RLX ); __atomic_store_n( &w->next, start, RLX ); __atomic_store_n( &w->left, nt, RLX );
        __atomic_thread_fence( __ATOMIC_SEQ_CST ); __atomic_store_n( &w->state, 2, RLX );
    } else while ( __atomic_load_n( &w->state, RLX ) != 2 ) sched_yield();
    return w;
}
static void done( void ) { work_t *w = mine; mine = NULL; if ( w && w != &solo && __atomic_sub_fetch( &w->left, 1, RLX ) == 0 ) __atomic_store_n( &w->state, 0, RLX ); }
static bool take( long *is, long *ie )
{
    work_t *w = mine; delay( 9 ); if ( !w ) return false;
    long c = __atomic_load_n( &w->chunk, RLX ) * __atomic_load_n( &w->incr, RLX ), end = __atomic_load_n( &w->end, RLX );
    long s = __atomic_fetch_add( &w->next, c, RLX );
    if ( c > 0 ? s >= end : s <= end ) return false;
    long e = s + c; if ( c > 0 ? e > end : e < end ) e = end;
    *is = s; *ie = e; event( 10 ); return true;
}
#define LOOP(name) \
bool GOMP_loop_##name##_start( long s, long e, long i, long c, long *is, long *ie ) { setup( s, e, i, c ); return take( is, ie ); } \
bool GOMP_loop_##name##_next( long *is, long *ie ) { return take( is, ie ); } \
void GOMP_parallel_loop_##name( void (*fn)( void * ), void *data, unsigned nt, long s, long e, long i, long c, unsigned flags ) \
{ (void) flags; pre( fn, data, nt, s, e, i, c ); }
#define LOOPR(name) \
bool GOMP_loop_##name##_start( long s, long e, long i, long *is, long *ie ) { setup( s, e, i, 1 ); return take( is, ie ); } \
bool GOMP_loop_##name##_next( long *is, long *ie ) { return take( is, ie ); } \
void GOMP_parallel_loop_##name( void (*fn)( void * ), void *data, unsigned nt, long s, long e, long i, unsigned flags ) \
{ (void) flags; pre( fn, data, nt, s, e, i, 1 ); }
/* a region that begins within a loop: each member finds it set up */
typedef struct { void (*fn)( void * ); void *data; long s, e, i, c; } pre_t;
static void pre_fn( void *v ) { pre_t *p = v; setup( p->s, p->e, p->i, p->c ); p->fn( p->data ); }
static void pre( void (*fn)( void * ), void *data, unsigned nt, long s, long e, long i, long c ) { pre_t p = { fn, data, s, e, i, c }; GOMP_parallel( pre_fn, &p, nt, 0 ); }
LOOP( static ) LOOP( dynamic ) LOOP( guided ) LOOP( nonmonotonic_dynamic ) LOOP( nonmonotonic_guided )
LOOPR( runtime ) LOOPR( nonmonotonic_runtime ) LOOPR( maybe_nonmonotonic_runtime )
typedef unsigned long long ull;
#define ULL(name) \
bool GOMP_loop_ull_##name##_start( bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie ) { setup( s, e, i, c ); (void) up; return take( (long*) is, (long*) ie ); } \
bool GOMP_loop_ull_##name##_next( ull *is, ull *ie ) { return take( (long*) is, (long*) ie ); }
#define ULLR(name) \
bool GOMP_loop_ull_##name##_start( bool up, ull s, ull e, ull i, ull *is, ull *ie ) { setup( s, e, i, 1 ); (void) up; return take( (long*) is, (long*) ie ); } \
bool GOMP_loop_ull_##name##_next( ull *is, ull *ie ) { return take( (long*) is, (long*) ie ); }
ULL( static ) ULL( dynamic ) ULL( guided ) ULL( nonmonotonic_dynamic ) ULL( nonmonotonic_guided ) ULLR( runtime ) ULLR( nonmonotonic_runtime ) ULLR( maybe_nonmonotonic_runtime )
void GOMP_loop_end_nowait( void ) { done(); }
void GOMP_loop_end( void ) { done(); GOMP_barrier(); }
/* ---- sections: numbers 1..n, 0 when there is none left */
unsigned GOMP_sections_next( void ) { long a, b; return take( &a, &b ) ? (unsigned) a : 0; }
unsigned GOMP_sections_start( unsigned n ) { setup( 1, (long) n + 1, 1, 1 ); return GOMP_sections_next(); }
void GOMP_sections_end_nowait( void ) { done(); }
void GOMP_sections_end( void ) { done(); GOMP_barrier(); }
void GOMP_parallel_sections( void (*fn)( void * ), void *data, unsigned nt, unsigned count, unsigned flags ) { (void) flags; pre( fn, data, nt, 1, (long) count + 1, 1, 1 ); }
/* ---- tasks are carried out at once */
void GOMP_task( void (*fn)( void * ), void *data, void (*cpy)( void *, void * ), long size, long align, bool ifc, unsigned flags, void **dep, int prio, void *detach )
{
    (void) ifc; (void) flags; (void) dep; (void) prio; (void) detach;
    char *b = malloc( size + align + 16 ); char *p = (char*) ((( uintptr_t ) b + align ) & ~( uintptr_t )( align > 1 ? align - 1 : 0 ));
    if ( cpy ) cpy( p, data ); else memcpy( p, data, size );
    delay( 11 ); fn( p ); free( b );
}
void GOMP_taskwait( void ) { } void GOMP_taskyield( void ) { } void GOMP_taskgroup_start( void ) { } void GOMP_taskgroup_end( void ) { }
bool GOMP_cancel( int w, bool d ) { (void) w; (void) d; return false; } bool GOMP_cancellation_point( int w ) { (void) w; return false; }
/* ---- omp_* */
int omp_get_num_threads( void ) { return self ? self->t->n : 1; }
int omp_get_thread_num( void ) { return self ? self->id : 0; }
int omp_get_max_threads( void ) { return threads(); }
void omp_set_num_threads( int n ) { icv = n > 0 ? n : 1; }
int omp_get_num_procs( void ) { return (int) sysconf( _SC_NPROCESSORS_ONLN ); }
int omp_in_parallel( void ) { return self && self->t->n > 1; }
int omp_get_level( void ) { return self ? 1 : 0; } int omp_get_active_level( void ) { return omp_in_parallel(); }
int omp_get_thread_limit( void ) { return 256; } int omp_get_team_size( int l ) { return l == 0 ? 1 : omp_get_num_threads(); }
void omp_set_dynamic( int d ) { (void) d; } int omp_get_dynamic( void ) { return 0; } void omp_set_nested( int d ) { (void) d; } int omp_get_nested( void ) { return 0; }
void omp_set_max_active_levels( int d ) { (void) d; } int omp_get_max_active_levels( void ) { return 1; } void omp_set_schedule( int k, int c ) { (void) k; (void) c; }
double omp_get_wtime( void ) { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick( void ) { return 1e-9; }
/* (an omp_lock_t is an int) */
void omp_init_lock( int *l ) { __atomic_store_n( l, 0, __ATOMIC_RELEASE ); } void omp_destroy_lock( int *l ) { (void) l; }
int omp_test_lock( int *l ) { int z = 0; return __atomic_compare_exchange_n( l, &z, 1, false, __ATOMIC_ACQUIRE, RLX ); }
void omp_set_lock( int *l ) { delay( 6 ); while ( !omp_test_lock( l )) sched_yield(); } void omp_unset_lock( int *l ) { __atomic_store_n( l, 0, __ATOMIC_RELEASE ); }
