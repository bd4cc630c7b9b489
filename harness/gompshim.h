/* What gompshim.c tells and is told (all weak: absent where the real libgomp is linked) */
#ifndef GOMPSHIM_H
#define GOMPSHIM_H
#include <stdint.h>
extern void shim_config( uint64_t seed, int delays ) __attribute__((weak));    /* delays: 0 none, 1 yields, 2 sleeps */
extern uint64_t shim_trace( void ) __attribute__((weak));                      /* a hash of the order of events since the last call */
extern void shim_counts( uint64_t *regions, uint64_t *members, uint64_t *events ) __attribute__((weak));
#endif
