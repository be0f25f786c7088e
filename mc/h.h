/* Common part of the C harnesses: loading a build of the library, owning its
 * allocations, running scenarios, reporting.
 *
 * A scenario is a tuple of longs.  mc_run( v, n ) executes it on the real code
 * and judges it; a violation is printed as
 *     MCVIOL <v0> <v1> ... # text
 * and "--replay v0 v1 ..." executes exactly that tuple again. */
#ifndef MC_H
#define MC_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include "ref.h"

typedef void *err_t_;
typedef struct
{
	int (*init)( void **ctx, void **err );
	int (*free)( void **ctx, void **err );
	int (*update)( void *ctx, const uint8_t *p, size_t n, void **err );
	int (*final)( void *ctx, uint8_t *out, size_t n, void **err );
	int (*calc)( const uint8_t *p, size_t n, uint8_t *out, size_t on, void **err );
	int (*hmac)( const uint8_t *k, size_t kn, const uint8_t *p, size_t n, uint8_t *out, size_t on, void **err );
	int (*dinit)( void **ctx, void **err );
	int (*dfree)( void **ctx, void **err );
	int (*dupdate)( void *ctx, const uint8_t *p, size_t n, void **err );
	int (*dfinal)( void *ctx, uint8_t *out, size_t n, void **err );
} api_t;
extern api_t api[ NALG ];
extern char mc_text[ 1024 ];
extern void *mc_dl;            /* the loaded library */
extern const char *mc_tag;     /* F0 F1 E2 E1 O ... */
extern int mc_thorough, mc_shard, mc_shards, mc_replaying;
extern long mc_evals, mc_nontrivial, mc_states, mc_transitions, mc_traces;
extern long mc_err_live, mc_err_sets, mc_err_allocs;
extern void (*mc_err_free)( void ** );

/* allocation control: every allocation the library (and, through
 * CRYPTO_set_mem_functions, the digest provider) makes goes through these */
enum { A_COUNT, A_ARENA };
extern int mc_amode;
extern long mc_live;           /* blocks allocated and not yet freed */
extern long mc_nalloc;         /* allocations asked for since mc_alloc_reset() */
extern int (*mc_fail)( long index, size_t size );   /* 1: this allocation fails */
extern void (*mc_on_free)( void *p, size_t size );  /* sees a block just before it is released */
extern const char *mc_alloc_complaint;              /* bad free etc. */
void mc_alloc_reset( void );
extern void *(*mc_malloc_hook)( size_t n, int zero ); extern void (*mc_free_hook)( void *p ); /* take over completely; size in the word 16 bytes before the block */
extern unsigned char *mc_wseg[ 8 ]; extern size_t mc_wlen[ 8 ]; extern int mc_nseg; /* the library's writable data */
size_t mc_block_size( void *p );

/* snapshots of the arena and of the library's writable data */
typedef struct { uint64_t h0, h1; size_t n; unsigned char *d; } snap_t;
void snap_take( snap_t *s );
void snap_restore( const snap_t *s );
void snap_free( snap_t *s );
int  mc_arena_overflow( void );

extern int mc_hang_s;          /* seconds of processor time without a new scenario that count as a hang */
/* provided by each harness */
void mc_init( void );
void mc_enumerate( void );
int  mc_eval( const long *v, int n );   /* 0 holds, nonzero violated (call mc_say first) */
const char *mc_rule( void );

void mc_say( const char *fmt, ... );    /* text of the violation */
int  mc_do( const long *v, int n );     /* run a scenario in this shard, report */
int  mc_mine( void );                   /* does the next unit of work belong to this shard? */
void mc_report( const long *v, int n ); /* report a violation already described by mc_say */
void mc_sample( const long *v, int n ); /* keep this scenario as a sample */
void mc_cur( const long *v, int n );    /* what is being executed (for crash attribution) */
double mc_now( void );
#define MC_DO( ... ) do { long v_[] = { __VA_ARGS__ }; mc_do( v_, (int) ( sizeof v_ / sizeof v_[ 0 ] ) ); } while( 0 )

/* Message patterns: deterministic byte at offset i of pattern p */
uint8_t mc_pat( int p, uint64_t i );
enum { NPAT = 8 };
const char *mc_hex( const uint8_t *p, size_t n );
#endif
