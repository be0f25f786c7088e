#include "h.h"
#ifdef MC_OPENSSL
#include <openssl/crypto.h>
#endif
api_t api[ NALG ];
void *mc_dl;
const char *mc_tag = "?";
int mc_thorough, mc_shard, mc_shards = 1, mc_replaying;
long mc_evals, mc_nontrivial, mc_states, mc_transitions, mc_traces;
void (*mc_err_free)( void ** );
char mc_text[ 1024 ];
static long units; static int nviol; static int nsample;
enum { MAXV = 1400 };
typedef struct { volatile long seq; int n; long v[ MAXV ]; } cur_t;
static cur_t curs, *cur = &curs;
static int phase_ready; int mc_hang_s = 30;
/* what the samples look like */
static char samples[ 8 ][ 256 ];

/* ---------------------------------------------------------------- allocator */
int mc_amode; long mc_live, mc_nalloc;
int (*mc_fail)( long, size_t ); void (*mc_on_free)( void *, size_t );
const char *mc_alloc_complaint;
enum { SLOTS = 40, SLOT = 2048 };
typedef struct { uint64_t used; uint32_t size[ SLOTS ]; uint32_t overflow; } ahdr_t;
static struct { ahdr_t h; unsigned char pad[ 4096 - sizeof( ahdr_t ) ]; unsigned char s[ SLOTS ][ SLOT ]; } arena __attribute__(( aligned( 4096 ) ));
/* live blocks outside the arena */
enum { NB = 1 << 16 };
static struct { void *p; size_t n; } blk[ NB ];
static unsigned bslot( void *p ) { return (unsigned) ( ( (uintptr_t) p * 0x9e3779b97f4a7c15ULL ) >> 48 ); }
static void badd( void *p, size_t n )
{
	unsigned i = bslot( p ), k;
	for( k = 0; k < NB; k++, i = ( i + 1 ) & ( NB - 1 ) )
		if( blk[ i ].p == NULL || blk[ i ].p == (void *) 1 ) { blk[ i ].p = p; blk[ i ].n = n; return; }
}
static long bfind( void *p )
{
	unsigned i = bslot( p ), k;
	for( k = 0; k < NB; k++, i = ( i + 1 ) & ( NB - 1 ) )
	{
		if( blk[ i ].p == p ) return i;
		if( blk[ i ].p == NULL ) return -1;
	}
	return -1;
}
void mc_alloc_reset( void ) { mc_nalloc = 0; }
static int inarena( void *p ) { return (unsigned char *) p >= arena.s[ 0 ] && (unsigned char *) p < arena.s[ SLOTS ]; }
size_t mc_block_size( void *p )
{
	long i;
	if( inarena( p ) ) return arena.h.size[ ( (unsigned char *) p - arena.s[ 0 ] ) / SLOT ];
	i = bfind( p );
	return i < 0 ? 0 : blk[ i ].n;
}
int mc_arena_overflow( void ) { return arena.h.overflow; }
static void *get( size_t n, int zero )
{
	void *p; long k = mc_nalloc++;
	if( mc_fail != NULL && mc_fail( k, n ) ) { errno = ENOMEM; return NULL; }
	if( mc_amode == A_ARENA )
	{
		if( n <= SLOT )
			for( int i = 0; i < SLOTS; i++ )
				if( !( arena.h.used >> i & 1 ) )
				{
					arena.h.used |= 1ULL << i; arena.h.size[ i ] = n;
					memset( arena.s[ i ], 0xa5, SLOT );
					if( zero ) memset( arena.s[ i ], 0, n );
					mc_live++;
					return arena.s[ i ];
				}
		arena.h.overflow = 1;
	}
	p = zero ? calloc( 1, n ? n : 1 ) : malloc( n ? n : 1 );
	if( p == NULL ) return NULL;
#ifndef MC_NOFILL
	if( !zero ) memset( p, 0xa5, n );
#endif
	badd( p, n ); mc_live++;
	return p;
}
static void put( void *p )
{
	long i;
	if( p == NULL ) return;
	if( inarena( p ) )
	{
		i = ( (unsigned char *) p - arena.s[ 0 ] ) / SLOT;
		if( p != arena.s[ i ] || !( arena.h.used >> i & 1 ) ) { mc_alloc_complaint = "free of a block that is not allocated"; return; }
		if( mc_on_free ) mc_on_free( p, arena.h.size[ i ] );
		arena.h.used &= ~( 1ULL << i ); arena.h.size[ i ] = 0;
		memset( p, 0x5a, SLOT );
		mc_live--;
		return;
	}
	i = bfind( p );
	if( i < 0 ) { mc_alloc_complaint = "free of a block that is not allocated"; return; }
	if( mc_on_free ) mc_on_free( p, blk[ i ].n );
	memset( p, 0x5a, blk[ i ].n );
	blk[ i ].p = (void *) 1; blk[ i ].n = 0; mc_live--;
	free( p );
}
void *(*mc_malloc_hook)( size_t n, int zero ); void (*mc_free_hook)( void *p );
void *__wrap_malloc( size_t n ) { return mc_malloc_hook ? mc_malloc_hook( n, 0 ) : get( n, 0 ); }
void *__wrap_calloc( size_t a, size_t b ) { return mc_malloc_hook ? mc_malloc_hook( a * b, 1 ) : get( a * b, 1 ); }
void __wrap_free( void *p ) { if( mc_free_hook ) mc_free_hook( p ); else put( p ); }
void *__wrap_realloc( void *p, size_t n )
{
	void *q; size_t o;
	if( mc_malloc_hook ) { q = mc_malloc_hook( n, 0 ); if( q && p ) { memcpy( q, p, n < ( (size_t *) p )[ -2 ] ? n : ( (size_t *) p )[ -2 ] ); mc_free_hook( p ); } return q; }
	if( p == NULL ) return get( n, 0 );
	o = mc_block_size( p );
	q = get( n, 0 );
	if( q == NULL ) return NULL;
	memcpy( q, p, o < n ? o : n );
	put( p );
	return q;
}
#ifdef MC_OPENSSL
static void *cm( size_t n, const char *f, int l ) { (void) f; (void) l; return get( n, 0 ); }
static void *cr( void *p, size_t n, const char *f, int l ) { (void) f; (void) l; return __wrap_realloc( p, n ); }
static void cf( void *p, const char *f, int l ) { (void) f; (void) l; put( p ); }
#endif

/* ---------------------------------------------------------------- snapshots */
unsigned char *mc_wseg[ 8 ]; size_t mc_wlen[ 8 ]; int mc_nseg;
#define wseg mc_wseg
#define wlen mc_wlen
#define nseg mc_nseg
static int segcb( struct dl_phdr_info *i, size_t s, void *u )
{
	struct link_map *lm = mc_dl; (void) s; (void) u;
	if( i->dlpi_addr != lm->l_addr ) return 0;
	for( int k = 0; k < i->dlpi_phnum && nseg < 8; k++ )
		if( i->dlpi_phdr[ k ].p_type == PT_LOAD && ( i->dlpi_phdr[ k ].p_flags & PF_W ) )
		{
			uintptr_t a = i->dlpi_addr + i->dlpi_phdr[ k ].p_vaddr, e = a + i->dlpi_phdr[ k ].p_memsz;
			for( int j = 0; j < i->dlpi_phnum; j++ )
				if( i->dlpi_phdr[ j ].p_type == PT_GNU_RELRO )
				{
					uintptr_t ra = i->dlpi_addr + i->dlpi_phdr[ j ].p_vaddr, re = ra + i->dlpi_phdr[ j ].p_memsz;
					re = ( re + 4095 ) & ~4095UL;
					if( a >= ( ra & ~4095UL ) && a < re ) a = re < e ? re : e;
				}
			if( a < e ) { wseg[ nseg ] = (unsigned char *) a; wlen[ nseg++ ] = e - a; }
		}
	return 0;
}
static uint64_t mix( uint64_t h, const unsigned char *p, size_t n, uint64_t m )
{
	size_t i; uint64_t w;
	for( i = 0; i + 8 <= n; i += 8 ) { memcpy( &w, p + i, 8 ); h = ( h ^ w ) * m; h ^= h >> 29; }
	for( ; i < n; i++ ) { h = ( h ^ p[ i ] ) * m; h ^= h >> 29; }
	return h;
}
void snap_take( snap_t *s )
{
	size_t n = sizeof( ahdr_t ); int i; unsigned char *d;
	for( i = 0; i < SLOTS; i++ ) if( arena.h.used >> i & 1 ) n += arena.h.size[ i ];
	for( i = 0; i < nseg; i++ ) n += wlen[ i ];
	d = s->d = malloc( n ); s->n = n;
	memcpy( d, &arena.h, sizeof( ahdr_t ) ); d += sizeof( ahdr_t );
	for( i = 0; i < SLOTS; i++ ) if( arena.h.used >> i & 1 ) { memcpy( d, arena.s[ i ], arena.h.size[ i ] ); d += arena.h.size[ i ]; }
	for( i = 0; i < nseg; i++ ) { memcpy( d, wseg[ i ], wlen[ i ] ); d += wlen[ i ]; }
	s->h0 = mix( 0x1234567, s->d, n, 0x9e3779b97f4a7c15ULL );
	s->h1 = mix( 0x89abcdef, s->d, n, 0xc2b2ae3d27d4eb4fULL );
}
void snap_restore( const snap_t *s )
{
	const unsigned char *d = s->d; int i; uint64_t was = arena.h.used;
	memcpy( &arena.h, d, sizeof( ahdr_t ) ); d += sizeof( ahdr_t );
	mc_live = 0;
	for( i = 0; i < SLOTS; i++ )
		if( arena.h.used >> i & 1 )
		{
			memcpy( arena.s[ i ], d, arena.h.size[ i ] ); d += arena.h.size[ i ];
			memset( arena.s[ i ] + arena.h.size[ i ], 0xa5, SLOT - arena.h.size[ i ] );
			mc_live++;
		}
		else if( was >> i & 1 ) memset( arena.s[ i ], 0x5a, SLOT );
	for( i = 0; i < nseg; i++ ) { memcpy( wseg[ i ], d, wlen[ i ] ); d += wlen[ i ]; }
}
void snap_free( snap_t *s ) { free( s->d ); s->d = NULL; }

/* ---------------------------------------------------------------- scenarios */
double mc_now( void ) { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }
void mc_say( const char *fmt, ... ) { va_list a; va_start( a, fmt ); vsnprintf( mc_text, sizeof mc_text, fmt, a ); va_end( a ); }
void mc_cur( const long *v, int n )
{
	cur->seq++; cur->n = n > MAXV ? MAXV : n;
	memcpy( cur->v, v, cur->n * sizeof( long ) );
}
static int fmt_v( char *b, size_t n, const long *v, int k )
{
	int o = 0;
	b[ 0 ] = 0;
	for( int i = 0; i < k && o < (int) n - 24; i++ ) o += snprintf( b + o, n - o, "%s%ld", i ? " " : "", v[ i ] );
	return o;
}
void mc_report( const long *v, int n )
{
	static char b[ 16384 ];
	fmt_v( b, sizeof b, v, n );
	printf( "MCVIOL %s # %s\n", b, mc_text[ 0 ] ? mc_text : "property violated" );
	fflush( stdout );
	if( ++nviol >= 3 && !mc_replaying ) { printf( "MCSTOP\n" ); fflush( stdout ); _exit( 3 ); }
}
void mc_sample( const long *v, int n )
{
	fmt_v( samples[ nsample++ & 7 ], sizeof samples[ 0 ], v, n );
}
int mc_mine( void ) { return units++ % mc_shards == mc_shard; }
int mc_do( const long *v, int n )
{
	int r;
	if( units++ % mc_shards != mc_shard ) return 0;
	mc_cur( v, n );
	mc_text[ 0 ] = 0;
	mc_evals++;
	r = mc_eval( v, n );
	if( r == 0 && mc_alloc_complaint ) { mc_say( "%s", mc_alloc_complaint ); r = 1; }
	mc_alloc_complaint = NULL;
	if( ( mc_evals & ( mc_evals - 1 ) ) == 0 ) mc_sample( v, n );
	if( r != 0 ) mc_report( v, n );
	return r;
}
static void outw( const char *s ) { if( write( 1, s, strlen( s ) ) < 0 ) {} }
static void crash( int sig )
{
	static char b[ 16384 ]; int o;
	static volatile int once;
	if( once++ ) _exit( 4 );
	fflush( stdout );
	outw( "\nMCVIOL " );
	o = fmt_v( b, sizeof b, cur->v, cur->n ); (void) o;
	outw( b );
	outw( sig == SIGVTALRM ? " # does not terminate" : sig == SIGSEGV || sig == SIGBUS ? " # crash: access to memory it may not touch" : sig == SIGABRT ? " # crash: abort" : sig == 0 ? " # crash: ended by itself or by a sanitizer" : " # crash: signal" );
	if( !phase_ready ) outw( " (before the first scenario)" );
	outw( "\nMCSTOP\n" );
	_exit( 3 );
}
/* exit called by the code under test, or by a sanitizer runtime that does not know the callbacks below */
static pid_t main_pid;
static void ended( int rc, void *x ) { (void) rc; (void) x; if( main_pid == getpid() ) crash( 0 ); }
static long seen_seq = -1;
static void tick( int sig ) { if( cur->seq == seen_seq ) crash( sig ); seen_seq = cur->seq; }
/* sanitizer runtimes call this before they die */
void __asan_on_error( void ) { crash( 0 ); }
void mc_san_death( void ) { crash( 0 ); }
void __sanitizer_set_death_callback( void (*)( void ) ) __attribute__(( weak ));

uint8_t mc_pat( int p, uint64_t i )
{
	switch( p )
	{
		case 0: return 0;
		case 1: return 0xff;
		case 2: return (uint8_t) i;
		case 3: return 0x80;
		case 4: { uint64_t x = ( i + 1 ) * 0x9e3779b97f4a7c15ULL; x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ULL; return (uint8_t) ( x >> 40 ); }
		case 5: return ( i & 1 ) ? 0xaa : 0x55;
		case 6: return "The quick brown fox jumps over the lazy dog."[ i % 44 ];
		default: { uint64_t x = ( i + 77 ) * 0xd6e8feb86659fd93ULL; x ^= x >> 32; x *= 0xd6e8feb86659fd93ULL; return (uint8_t) ( x >> 33 ); }
	}
}
const char *mc_hex( const uint8_t *p, size_t n )
{
	static char b[ 4 ][ 160 ]; static int k; char *s = b[ k++ & 3 ]; size_t i;
	for( i = 0; i < n && i < 70; i++ ) sprintf( s + 2 * i, "%02x", p[ i ] );
	s[ 2 * i ] = 0;
	return s;
}
static void *sym( const char *f, ... )
{
	char b[ 128 ]; va_list a; void *p;
	va_start( a, f ); vsnprintf( b, sizeof b, f, a ); va_end( a );
	p = dlsym( mc_dl, b );
	if( p == NULL ) { printf( "MCVIOL 0 # public function %s is missing\nMCSTOP\n", b ); fflush( stdout ); _exit( 3 ); }
	return p;
}
int main( int argc, char **argv )
{
	const char *lib = NULL; long rv[ MAXV ]; int rn = 0, i; double t0;
	for( i = 1; i < argc; i++ )
	{
		if( !strcmp( argv[ i ], "--lib" ) ) lib = argv[ ++i ];
		else if( !strcmp( argv[ i ], "--tag" ) ) mc_tag = argv[ ++i ];
		else if( !strcmp( argv[ i ], "--thorough" ) ) mc_thorough = 1;
		else if( !strcmp( argv[ i ], "--shard" ) ) { sscanf( argv[ ++i ], "%d/%d", &mc_shard, &mc_shards ); }
		else if( !strcmp( argv[ i ], "--replay" ) ) { mc_replaying = 1; while( ++i < argc && rn < MAXV ) rv[ rn++ ] = atol( argv[ i ] ); }
	}
	setvbuf( stdout, NULL, _IOLBF, 0 );
#ifdef MC_OPENSSL
	if( CRYPTO_set_mem_functions( cm, cr, cf ) != 1 ) { fprintf( stderr, "cannot own the provider's allocations\n" ); return 9; }
#endif
	if( lib != NULL )
	{
		mc_dl = dlopen( lib, RTLD_NOW | RTLD_LOCAL );
		if( mc_dl == NULL ) { fprintf( stderr, "dlopen: %s\n", dlerror() ); return 9; }
		dl_iterate_phdr( segcb, NULL );
		for( i = 0; i < NALG; i++ )
		{
			const char *a = ref_name[ i ];
			api[ i ].init = sym( "libhmac_%s_context_initialize", a );
			api[ i ].free = sym( "libhmac_%s_context_free", a );
			api[ i ].update = sym( "libhmac_%s_context_update", a );
			api[ i ].final = sym( "libhmac_%s_context_finalize", a );
			api[ i ].calc = sym( "libhmac_%s_calculate", a );
			api[ i ].hmac = sym( "libhmac_%s_calculate_hmac", a );
			api[ i ].dinit = sym( "libhmac_%s_initialize", a );
			api[ i ].dfree = sym( "libhmac_%s_free", a );
			api[ i ].dupdate = sym( "libhmac_%s_update", a );
			api[ i ].dfinal = sym( "libhmac_%s_finalize", a );
		}
	}
	mc_err_free = dlsym( RTLD_DEFAULT, "libcerror_error_free" );
	{
		struct sigaction sa; static char alt[ 65536 ]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
		struct itimerval tv = { { 30, 0 }, { 30, 0 } };
		sigaltstack( &ss, NULL );
		memset( &sa, 0, sizeof sa ); sa.sa_flags = SA_ONSTACK | SA_NODEFER;
		sa.sa_handler = crash;
		int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
		for( i = 0; i < 5; i++ ) sigaction( sg[ i ], &sa, NULL );
		sa.sa_handler = tick; sigaction( SIGVTALRM, &sa, NULL );
		setitimer( ITIMER_VIRTUAL, &tv, NULL );
		if( __sanitizer_set_death_callback ) __sanitizer_set_death_callback( mc_san_death );
	}
	t0 = mc_now();
	mc_init();
	if( mc_hang_s != 30 ) { struct itimerval tv = { { mc_hang_s, 0 }, { mc_hang_s, 0 } }; setitimer( ITIMER_VIRTUAL, &tv, NULL ); }
	phase_ready = 1;
	main_pid = getpid();
	on_exit( ended, NULL );
	if( mc_replaying )
	{
		int r;
		mc_cur( rv, rn ); mc_evals++;
		r = mc_eval( rv, rn );
		if( r == 0 && mc_alloc_complaint ) { mc_say( "%s", mc_alloc_complaint ); r = 1; }
		if( r ) mc_report( rv, rn );
		main_pid = 0;
		printf( "MCREPLAY %s\n", r ? "violated" : "holds" );
		return r ? 3 : 0;
	}
	mc_enumerate();
	main_pid = 0;
	printf( "MCSTAT {\"tag\":\"%s\",\"shard\":%d,\"evals\":%ld,\"nontrivial\":%ld,\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"wall\":%.2f,\"samples\":[", mc_tag, mc_shard, mc_evals, mc_nontrivial, mc_states, mc_transitions, mc_traces, mc_now() - t0 );
	for( i = 0; i < 8 && samples[ i ][ 0 ]; i++ ) printf( "%s\"%s\"", i ? "," : "", samples[ i ] );
	printf( "]}\n" );
	return nviol ? 3 : 0;
}
