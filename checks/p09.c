/* Threads on their own contexts, all interleavings up to a preemption bound.
 * The library is compiled with -fsanitize=thread instrumentation served by this
 * harness. Real threads run one at a time, a baton is passed at scheduling
 * points: API calls, allocations, frees, lock operations, and every access to a
 * location outside the stacks that one thread writes and another one uses
 * (found by the exploration itself, repeated until no new location appears).
 * Before every schedule the library's writable data are put back to what they
 * were when it was loaded: each schedule starts with the first call in the process.
 * v = [ nthreads, op0, alg0, op1, alg1, ..., first, (position, thread)* ] */
#include "h.h"
#include <pthread.h>
#include <semaphore.h>
const char *mc_rule( void ) { return ""; }
enum { NT = 3, STK = 256 * 1024, MAXPRE = 8, HEAP = 1 << 20 };
static int nt, op[ NT ], alg[ NT ];
static uint8_t msg[ NT ][ 512 ], key[ NT ][ 300 ], got[ NT ][ 64 ], want[ NT ][ 64 ], want0[ NT ][ 64 ]; static int rets[ NT ]; static char retmsg[ NT ][ 80 ];
static uint8_t *stk[ NT ]; static pthread_t th[ NT ];
static sem_t sem[ NT ], msem;
static volatile int cur, running; static volatile int fin[ NT ]; static void *volatile waits[ NT ];
static long npoint, runnable_at[ 1 << 16 ]; static int cur_at[ 1 << 16 ];
static long pre_pos[ MAXPRE ]; static int pre_tid[ MAXPRE ], npre, ipre;
static int deadlock;
/* fresh heap for each schedule */
static uint8_t *heap; static size_t hoff; static long hlive; static const char *hbad;
static void *hmalloc( size_t n, int zero )
{
	uint8_t *p = heap + hoff + 16;
	if( hoff + n + 64 > HEAP ) return NULL;
	( (size_t *) p )[ -2 ] = n; ( (size_t *) p )[ -1 ] = 0x11ce;
	memset( p, zero ? 0 : 0xa5, n );
	hoff = ( hoff + 16 + n + 31 ) & ~15UL; hlive++;
	return p;
}
static void hfree( void *q )
{
	uint8_t *p = q;
	if( p == NULL ) return;
	if( p < heap || p >= heap + HEAP || ( (size_t *) p )[ -1 ] != 0x11ce ) { hbad = "free of a block that is not allocated"; return; }
	( (size_t *) p )[ -1 ] = 0xdead; memset( p, 0x5a, ( (size_t *) p )[ -2 ] ); hlive--;
}
/* which locations are used by which threads: granules of 8 bytes */
enum { GB = 1 << 17 };
static struct { uintptr_t g; uint32_t epoch; uint8_t r, w; } gran[ GB ]; static uint32_t epoch;
static uintptr_t conf[ 8192 ]; static int nconf; static uint8_t confbit[ 1 << 16 ];
static int isconf( uintptr_t g ) { if( !confbit[ g >> 3 & 0xffff ] ) return 0; for( int i = 0; i < nconf; i++ ) if( conf[ i ] == g ) return 1; return 0; }
static int newconf, replay_after;
static void point( void );
static void touch( uintptr_t g, int w )
{
	unsigned h = ( g >> 3 ) * 0x9e3779b1U & ( GB - 1 ); uint8_t m = 1 << cur;
	while( gran[ h ].epoch == epoch && gran[ h ].g != g ) h = ( h + 1 ) & ( GB - 1 );
	if( gran[ h ].epoch != epoch ) { gran[ h ].epoch = epoch; gran[ h ].g = g; gran[ h ].r = gran[ h ].w = 0; }
	if( w ) gran[ h ].w |= m; else gran[ h ].r |= m;
	if( gran[ h ].w && ( ( gran[ h ].w | gran[ h ].r ) & ( ( gran[ h ].w | gran[ h ].r ) - 1 ) ) && !isconf( g ) && nconf < 8192 ) { conf[ nconf++ ] = g; confbit[ g >> 3 & 0xffff ] = 1; newconf = 1; }
}
static __thread int in_lib;
static void access_( void *a, size_t n, int w )
{
	uintptr_t p = (uintptr_t) a, g; int pt = 0;
	if( !running || !in_lib || n == 0 ) return;
	for( int i = 0; i < nt; i++ ) if( p >= (uintptr_t) stk[ i ] && p < (uintptr_t) stk[ i ] + STK ) return;
	if( (uint8_t *) a >= msg[ 0 ] && (uint8_t *) a < (uint8_t *) msg + sizeof msg ) return;
	for( g = p & ~7UL; g < p + n; g += 8 ) { if( isconf( g ) ) pt = 1; }
	if( pt ) point();
	for( g = p & ~7UL; g < p + n; g += 8 ) touch( g, w );
}
#define MC_ACCESS( a, n, w ) access_( a, n, w )
#include "tsanrt.h"
static int anyconf( const void *a, size_t n ) { if( nconf ) for( uintptr_t g = (uintptr_t) a & ~7UL; g < (uintptr_t) a + n; g += 8 ) if( isconf( g ) ) return 1; return 0; }
/* a copy of shared memory is not one step: it is done in pieces between which threads may change */
static void *copy( void *d, const void *s, size_t n )
{
	uint8_t *x = d; const uint8_t *y = s; size_t k;
	if( !running || !in_lib || n < 8 || n > 512 || ( x < y + n && y < x + n ) || !( anyconf( d, n ) || anyconf( s, n ) ) ) { access_( (void *) s, n, 0 ); access_( d, n, 1 ); return memmove( d, s, n ); }
	for( k = 0; k < n; k += 8 ) { size_t m = n - k < 8 ? n - k : 8; access_( (void *) ( y + k ), m, 0 ); access_( x + k, m, 1 ); memcpy( x + k, y + k, m ); }
	return d;
}
void *__wrap_memcpy( void *d, const void *s, size_t n ) { return copy( d, s, n ); }
void *__wrap_memmove( void *d, const void *s, size_t n ) { return copy( d, s, n ); }
void *__wrap_memset( void *d, int c, size_t n ) { access_( d, n, 1 ); return memset( d, c, n ); }
int __wrap_memcmp( const void *a, const void *b, size_t n ) { access_( (void *) a, n, 0 ); access_( (void *) b, n, 0 ); return memcmp( a, b, n ); }
static void *tmalloc( size_t n, int z ) { point(); return hmalloc( n, z ); }
static void tfree( void *p ) { point(); hfree( p ); }
/* scheduling */
static int can( int t ) { return !fin[ t ] && waits[ t ] == NULL; }
static void hand( int next )
{
	int me = cur;
	cur = next;
	sem_post( &sem[ next ] );
	while( sem_wait( &sem[ me ] ) ) {}
}
static void point( void )
{
	long k; int m = 0, t = 0, next;
	if( !running || !in_lib ) return;
	k = npoint++;
	if( k && k % 20000 == 0 ) { for( t = 0; t < nt; t++ ) if( t != cur && can( t ) ) { hand( t ); return; } } /* a thread that waits in a loop for another one */
	if( k >= 1 << 16 ) return;
	for( t = 0; t < nt; t++ ) if( t != cur && can( t ) ) m |= 1 << t;
	runnable_at[ k ] = m; cur_at[ k ] = cur;
	if( ipre < npre && pre_pos[ ipre ] == k ) { next = pre_tid[ ipre++ ]; if( m >> next & 1 ) hand( next ); }
}
static void block_until_free( void *what )
{
	int t;
	waits[ cur ] = what;
	for( t = 0; t < nt; t++ ) if( can( t ) ) { hand( t ); return; }
	/* nobody can run */
	deadlock = 1; waits[ cur ] = NULL;
}
static struct { void *m; int owner; } locks[ 64 ]; static int nlocks;
static int *lockof( void *m ) { int i; for( i = 0; i < nlocks; i++ ) if( locks[ i ].m == m ) return &locks[ i ].owner; if( nlocks < 64 ) nlocks++; locks[ nlocks - 1 ].m = m; locks[ nlocks - 1 ].owner = -1; return &locks[ nlocks - 1 ].owner; }
int __wrap_pthread_mutex_lock( void *m ) { int *o; if( !running ) return 0; point(); o = lockof( m ); while( *o >= 0 && !deadlock ) block_until_free( m ); *o = cur; return 0; }
int __wrap_pthread_mutex_trylock( void *m ) { int *o; if( !running ) return 0; point(); o = lockof( m ); if( *o >= 0 ) return EBUSY; *o = cur; return 0; }
int __wrap_pthread_mutex_unlock( void *m ) { int *o, t; if( !running ) return 0; o = lockof( m ); *o = -1; for( t = 0; t < nt; t++ ) if( waits[ t ] == m ) waits[ t ] = NULL; point(); return 0; }
int __wrap_pthread_once( void *c, void (*f)( void ) )
{
	int *o = lockof( (char *) c ), t;
	if( !running ) { f(); return 0; }
	point();
	while( *o >= 0 && *o != 99 && !deadlock ) block_until_free( c );
	if( *o == 99 ) return 0;
	*o = cur; f(); *o = 99;
	for( t = 0; t < nt; t++ ) if( waits[ t ] == c ) waits[ t ] = NULL;
	point();
	return 0;
}
static void act( int t )
{
	int a = alg[ t ], r = 1; size_t B = ref_block[ a ], D = ref_dlen[ a ]; void *ctx = NULL; const api_t *f = &api[ a ]; uint8_t first[ 64 ];
#define S( x ) do { point(); r = ( x ); if( r != 1 && !retmsg[ t ][ 0 ] ) { rets[ t ] = r; strcpy( retmsg[ t ], #x ); } } while( 0 )
	switch( op[ t ] )
	{
		case 0: S( f->calc( msg[ t ], B + 30, got[ t ], D, NULL ) ); break;
		case 1: S( f->hmac( key[ t ], B + 20, msg[ t ], B + 5, got[ t ], D, NULL ) ); break;
		case 2:
			S( f->init( &ctx, NULL ) ); S( f->update( ctx, msg[ t ], B - 3, NULL ) ); S( f->update( ctx, msg[ t ] + B - 3, 33, NULL ) ); S( f->final( ctx, got[ t ], D, NULL ) ); S( f->free( &ctx, NULL ) );
			break;
		case 3: S( f->hmac( key[ t ], 20, msg[ t ], 9, got[ t ], D, NULL ) ); break;
		case 4: S( f->dinit( &ctx, NULL ) ); S( f->dupdate( ctx, msg[ t ], B + 30, NULL ) ); S( f->dfinal( ctx, got[ t ], D, NULL ) ); S( f->dfree( &ctx, NULL ) ); break;
		case 5: S( f->calc( msg[ t ] + 100, 20, got[ t ], D, NULL ) ); break;
		case 6: /* short messages one after the other */
			S( f->calc( msg[ t ] + 100, 20, first, D, NULL ) ); S( f->calc( msg[ t ], 20, got[ t ], D, NULL ) );
			if( memcmp( got[ t ], want0[ t ], D ) && !retmsg[ t ][ 0 ] ) { rets[ t ] = 1; strcpy( retmsg[ t ], "the digest of the second of three messages is wrong and calc" ); }
			S( f->calc( msg[ t ] + 100, 20, got[ t ], D, NULL ) );
			if( memcmp( first, got[ t ], D ) && !retmsg[ t ][ 0 ] ) { rets[ t ] = 1; strcpy( retmsg[ t ], "the digest of the first of three messages is wrong and calc" ); }
			break;
	}
}
static void *thread( void *arg )
{
	int t = (int) (long) arg, i;
	while( sem_wait( &sem[ t ] ) ) {}
	in_lib = 1;
	act( t );
	in_lib = 0;
	fin[ t ] = 1;
	for( i = 0; i < nt; i++ ) if( can( i ) ) { cur = i; sem_post( &sem[ i ] ); return NULL; }
	sem_post( &msem );
	return NULL;
}
static unsigned char *seg0[ 8 ], *seg1[ 8 ];
static int check( const char *when )
{
	for( int t = 0; t < nt; t++ )
	{
		if( retmsg[ t ][ 0 ] ) { mc_say( "%d threads %s: in thread %d (%s) %s returns %d", nt, when, t, ref_name[ alg[ t ] ], retmsg[ t ], rets[ t ] ); return 1; }
		if( memcmp( got[ t ], want[ t ], ref_dlen[ alg[ t ] ] ) ) { mc_say( "%d threads on their own contexts %s: thread %d gets %s %s instead of %s", nt, when, t, ref_name[ alg[ t ] ], mc_hex( got[ t ], ref_dlen[ alg[ t ] ] ), mc_hex( want[ t ], ref_dlen[ alg[ t ] ] ) ); return 1; }
	}
	return 0;
}
static int run_schedule( int first )
{
	int t, bad = 0; pthread_attr_t at;
	for( t = 0; t < mc_nseg; t++ ) memcpy( mc_wseg[ t ], seg0[ t ], mc_wlen[ t ] );
	hoff = 0; hlive = 0; hbad = NULL; nlocks = 0; deadlock = 0; npoint = 0; ipre = 0; epoch++;
	for( t = 0; t < nt; t++ ) { fin[ t ] = 0; waits[ t ] = NULL; rets[ t ] = 1; retmsg[ t ][ 0 ] = 0; memset( got[ t ], 0xee, 64 ); sem_init( &sem[ t ], 0, 0 ); }
	sem_init( &msem, 0, 0 );
	cur = first; running = 1; mc_malloc_hook = tmalloc; mc_free_hook = tfree;
	for( t = 0; t < nt; t++ )
	{
		pthread_attr_init( &at ); pthread_attr_setstack( &at, stk[ t ], STK );
		if( pthread_create( &th[ t ], &at, thread, (void *) (long) t ) ) { mc_say( "cannot create threads" ); _exit( 9 ); }
		pthread_attr_destroy( &at );
	}
	sem_post( &sem[ first ] );
	while( sem_wait( &msem ) ) {}
	for( t = 0; t < nt; t++ ) pthread_join( th[ t ], NULL );
	running = 0; mc_malloc_hook = NULL; mc_free_hook = NULL;
	mc_transitions += npoint; mc_traces++;
	if( check( "at the same time" ) ) bad = 1;
	if( !bad && deadlock ) { mc_say( "threads on their own contexts wait for each other for ever" ); bad = 1; }
	/* what the schedule left behind must not spoil a later call: every thread's calls again, each as the first one after the schedule */
	for( t = 0; t < mc_nseg; t++ ) memcpy( seg1[ t ], mc_wseg[ t ], mc_wlen[ t ] );
	if( !bad && !deadlock && replay_after )
	{
		mc_malloc_hook = hmalloc; mc_free_hook = hfree;
		for( t = 0; t < nt && !bad; t++ )
		{
			if( t ) for( int i = 0; i < mc_nseg; i++ ) memcpy( mc_wseg[ i ], seg1[ i ], mc_wlen[ i ] );
			memset( got[ t ], 0xee, 64 ); act( t ); bad = check( "and called once more afterwards" );
		}
		mc_malloc_hook = NULL; mc_free_hook = NULL;
	}
	if( !bad && hbad ) { mc_say( "threads on their own contexts: %s", hbad ); bad = 1; }
	return bad;
}
static int setup( const long *v )
{
	nt = v[ 0 ];
	for( int t = 0; t < nt; t++ )
	{
		size_t B; op[ t ] = v[ 1 + 2 * t ]; alg[ t ] = v[ 2 + 2 * t ]; B = ref_block[ alg[ t ] ];
		if( op[ t ] == 1 ) ref_hmac( alg[ t ], key[ t ], B + 20, msg[ t ], B + 5, want[ t ] );
		else if( op[ t ] == 3 ) ref_hmac( alg[ t ], key[ t ], 20, msg[ t ], 9, want[ t ] );
		else if( op[ t ] >= 5 ) { ref_digest( alg[ t ], msg[ t ], 20, want0[ t ] ); ref_digest( alg[ t ], msg[ t ] + 100, 20, want[ t ] ); }
		else ref_digest( alg[ t ], msg[ t ], B + 30, want[ t ] );
	}
	nconf = 0; memset( confbit, 0, sizeof confbit );
	return 1 + 2 * nt;
}
static int sched_v( long *v, int n, int first ) { v[ n++ ] = first; for( int i = 0; i < npre; i++ ) { v[ n++ ] = pre_pos[ i ]; v[ n++ ] = pre_tid[ i ]; } return n; }
/* the serial runs, which also find the shared locations */
static int discover( long *v, int n )
{
	npre = 0;
	for( int round = 0; round < 4; round++ )
	{
		newconf = 0;
		for( int f = 0; f < nt; f++ )
		{
			int m = sched_v( v, n, f );
			mc_cur( v, m ); mc_evals++;
			if( run_schedule( f ) ) { mc_report( v, m ); return 1; }
		}
		if( !newconf ) break;
	}
	return 0;
}
int mc_eval( const long *v, int n )
{
	long w[ 64 ]; int k = setup( v ), i; memcpy( w, v, sizeof( long ) * k );
	if( discover( w, k ) ) return 1;
	for( npre = 0, i = k + 1; i + 1 < n && npre < MAXPRE; i += 2 ) { pre_pos[ npre ] = v[ i ]; pre_tid[ npre++ ] = v[ i + 1 ]; }
	return run_schedule( v[ k ] );
}
static long budget;
static int dfs( long *v, int n, int first, long from, int left )
{
	static long run_at[ MAXPRE + 1 ][ 1 << 12 ]; static int at_cur[ MAXPRE + 1 ][ 1 << 12 ]; long N, k; int t, m, d = npre; (void) at_cur;
	m = sched_v( v, n, first );
	mc_cur( v, m ); mc_evals++; budget--;
	if( run_schedule( first ) ) { mc_report( v, m ); return 1; }
	if( ( mc_evals & ( mc_evals - 1 ) ) == 0 ) mc_sample( v, m );
	if( left == 0 ) return 0;
	N = npoint < 1 << 12 ? npoint : 1 << 12;
	memcpy( run_at[ d ], runnable_at, N * sizeof( long ) );
	for( k = from; k < N; k++ ) for( t = 0; t < nt; t++ )
	{
		if( !( run_at[ d ][ k ] >> t & 1 ) ) continue;
		if( budget <= 0 ) return 0;
		pre_pos[ d ] = k; pre_tid[ d ] = t; npre = d + 1;
		if( dfs( v, n, first, k + 1, left - 1 ) ) { npre = d; return 1; }
		npre = d;
	}
	return 0;
}
static void explore( long *v, int bound, long cap )
{
	int n = setup( v ), f, b, before;
	if( discover( v, n ) ) return;
	do
	{
		before = nconf;
		for( b = 1; b <= bound; b++ )
			for( f = 0; f < nt; f++ )
			{
				budget = cap; npre = 0;
				if( dfs( v, n, f, 0, b ) ) return;
				if( budget <= 0 ) { printf( "MCNOTE %s schedule cap reached with bound %d\n", mc_tag, b ); return; }
			}
	} while( nconf != before );
	mc_states++; mc_nontrivial++;
}
void mc_init( void )
{
	replay_after = 1;
	heap = mmap( NULL, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
	for( int t = 0; t < NT; t++ )
	{
		stk[ t ] = mmap( NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
		for( int i = 0; i < 512; i++ ) { msg[ t ][ i ] = mc_pat( 4, i + 1000 * t ); if( i < 300 ) key[ t ][ i ] = mc_pat( 7, i + 1000 * t ); }
	}
	for( int i = 0; i < mc_nseg; i++ ) { seg1[ i ] = malloc( mc_wlen[ i ] ); seg0[ i ] = malloc( mc_wlen[ i ] ); memcpy( seg0[ i ], mc_wseg[ i ], mc_wlen[ i ] ); }
}
void mc_enumerate( void )
{
	int T = mc_thorough; long a, b, o, q, v[ 64 ];
	for( a = 0; a < NALG; a++ ) for( b = 0; b < NALG; b++ ) for( o = 0; o < 7; o++ ) for( q = 0; q < 7; q++ )
	{
		if( a > b || ( a == b && o > q ) ) continue;
		if( a != b && !T && o != q && o + q != 3 && o + q != 11 ) continue;
		long w[] = { 2, o, a, q, b }; memcpy( v, w, sizeof w );
		if( mc_mine() ) explore( v, T ? 3 : 2, T ? 60000 : 3000 );
	}
	for( a = 0; a < NALG; a++ ) for( o = 0; o < 7; o++ )
	{
		long w[] = { 3, o, a, ( o + 1 ) % 7, a, 1, ( a + 1 ) % NALG }; memcpy( v, w, sizeof w );
		if( mc_mine() ) explore( v, T ? 2 : 1, T ? 60000 : 3000 );
	}
}
