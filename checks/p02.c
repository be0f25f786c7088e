/* All ways of cutting a message into updates, explored as a state graph on the
 * real code: a state is the exact content of the context's memory (and of the
 * library's writable data) after some updates; a transition is one update call.
 * v = [ alg, pattern, chunk, chunk, ... ] is one path, run from a fresh context. */
#include "h.h"
static uint8_t *msg[ NPAT ]; static size_t msgn = ( 1 << 22 ) + 8192; static uint8_t *shifted[ 16 ];
const char *mc_rule( void ) { return ""; }
typedef struct { snap_t s; int pos, parent, chunk; } st_t;
static st_t *st; static long nst, cst;
static long *head; static long *nxt; enum { HB = 1 << 18 };
static void *ctx0;
void mc_init( void )
{
	uint8_t o[ 64 ]; void *c = NULL, *e = NULL;
	for( int p = 0; p < NPAT; p++ ) { msg[ p ] = malloc( msgn ); for( size_t i = 0; i < msgn; i++ ) msg[ p ][ i ] = mc_pat( p, i ); }
	for( int k = 0; k < 16; k++ ) { shifted[ k ] = (uint8_t *) aligned_alloc( 64, 1024 + 64 ) + k; memcpy( shifted[ k ], msg[ 4 ], 1024 ); }
	for( int a = 0; a < NALG; a++ )
	{
		api[ a ].calc( msg[ 2 ], 300, o, 64, &e ); api[ a ].hmac( msg[ 2 ], 3, msg[ 2 ], 300, o, 64, &e );
		api[ a ].init( &c, &e ); api[ a ].update( c, msg[ 2 ], 9, &e ); api[ a ].final( c, o, 64, &e ); api[ a ].free( &c, &e ); c = NULL;
	}
	if( e ) mc_err_free( &e );
	mc_amode = A_ARENA;
	head = malloc( HB * sizeof *head );
}
static void path_of( long s, long *v, int *n, long a, long p )
{
	int k = 0; long t[ 1300 ];
	for( ; s > 0; s = st[ s ].parent ) t[ k++ ] = st[ s ].chunk;
	v[ 0 ] = a; v[ 1 ] = p; *n = 2;
	while( k > 0 ) v[ (*n)++ ] = t[ --k ];
}
static int fin_check( int a, int p, void *ctx, size_t pos, const char *how )
{
	uint8_t out[ 64 ], want[ 64 ]; void *err = NULL; int r;
	memset( out, 0xee, sizeof out );
	r = api[ a ].final( ctx, out, ref_dlen[ a ], &err );
	ref_digest( a, msg[ p ], pos, want );
	if( err ) { mc_err_free( &err ); mc_say( "%s after %zu bytes in %s: finalizing sets an error", ref_name[ a ], pos, how ); return 1; }
	if( r != 1 ) { mc_say( "%s after %zu bytes in %s: finalizing returns %d", ref_name[ a ], pos, how, r ); return 1; }
	if( memcmp( out, want, ref_dlen[ a ] ) ) { mc_say( "%s of %zu bytes fed in %s is %s, the standard says %s", ref_name[ a ], pos, how, mc_hex( out, ref_dlen[ a ] ), mc_hex( want, ref_dlen[ a ] ) ); return 1; }
	return 0;
}
/* one path from scratch; leaves its final state in *s when asked */
static int run_path( const long *v, int n, snap_t *s )
{
	int a = v[ 0 ], p = v[ 1 ], i, bad = 0, r; void *ctx = NULL, *err = NULL; size_t pos = 0;
	if( api[ a ].init( &ctx, &err ) != 1 || err ) { mc_say( "%s: initializing fails", ref_name[ a ] ); return 1; }
	for( i = 2; i < n && !bad; i++ )
	{
		r = api[ a ].update( ctx, msg[ p ] + pos, v[ i ], &err );
		if( r != 1 || err ) { mc_say( "%s: update of %ld bytes after %zu bytes returns %d%s", ref_name[ a ], v[ i ], pos, r, err ? " with an error" : "" ); if( err ) mc_err_free( &err ); bad = 1; }
		pos += v[ i ];
	}
	if( !bad && s ) snap_take( s );
	if( !bad ) bad = fin_check( a, p, ctx, pos, n > 3 ? "pieces" : "one piece" );
	api[ a ].free( &ctx, &err );
	return bad;
}
/* v = [ alg, -1, c1, c2, total, order ]: alternate updates of c1 and c2 bytes up to a total */
static int run_cycle( const long *v )
{
	int a = v[ 0 ], r, k = 0, bad = 0; void *ctx = NULL, *err = NULL; long pos = 0, total = v[ 4 ];
	if( api[ a ].init( &ctx, &err ) != 1 || err ) { mc_say( "%s: initializing fails", ref_name[ a ] ); return 1; }
	while( pos < total && !bad )
	{
		long c = k++ & 1 ? v[ 3 ] : v[ 2 ];
		if( c > total - pos ) c = total - pos;
		r = api[ a ].update( ctx, msg[ 4 ] + pos, c, &err );
		if( r != 1 || err ) { mc_say( "%s: update of %ld bytes after %ld bytes returns %d%s", ref_name[ a ], c, pos, r, err ? " with an error" : "" ); if( err ) mc_err_free( &err ); bad = 1; }
		pos += c;
	}
	if( !bad ) bad = fin_check( a, 4, ctx, pos, "alternating pieces" );
	api[ a ].free( &ctx, &err );
	return bad;
}
/* v = [ alg, -4, a, c1, c2, b ]: two updates whose data lie at addresses a and b modulo 16, whatever came before */
static int run_shift( const long *v )
{
	int a = v[ 0 ], r, bad = 0; void *ctx = NULL, *err = NULL; long pos = 0;
	if( api[ a ].init( &ctx, &err ) != 1 || err ) { mc_say( "%s: initializing fails", ref_name[ a ] ); return 1; }
	for( int i = 0; i < 2 && !bad; i++ )
	{
		/* the piece of the message that is next, at the address asked for */
		uint8_t *at = shifted[ ( ( i ? v[ 5 ] : v[ 2 ] ) - pos ) & 15 ] + pos;
		r = api[ a ].update( ctx, at, v[ 3 + i ], &err ); pos += v[ 3 + i ];
		if( r != 1 || err ) { mc_say( "%s: update of %ld bytes at alignment %d returns %d%s", ref_name[ a ], v[ 3 + i ], (int) ( (uintptr_t) at & 15 ), r, err ? " with an error" : "" ); if( err ) mc_err_free( &err ); bad = 1; }
	}
	if( !bad ) bad = fin_check( a, 4, ctx, pos, "unaligned pieces" );
	api[ a ].free( &ctx, &err );
	return bad;
}
/* v = [ alg, -5, kind, count ]: very many updates */
static int run_many( const long *v )
{
	int a = v[ 0 ], r, bad = 0; void *ctx = NULL, *err = NULL; long pos = 0;
	if( api[ a ].init( &ctx, &err ) != 1 || err ) { mc_say( "%s: initializing fails", ref_name[ a ] ); return 1; }
	for( long i = 0; i < v[ 3 ] && !bad; i++ )
	{
		long c = v[ 2 ] == 0 ? 1 : v[ 2 ] == 1 ? 0 : v[ 2 ] == 2 ? ( i & 1 ) : v[ 2 ] == 3 ? 3 : v[ 2 ] == 4 ? ( i % 1000 == 7 ? 70 : 0 ) : ref_block[ a ] / 4;
		if( v[ 2 ] == 1 && ( i == 0 || i == v[ 3 ] - 1 ) ) c = 17;
		r = api[ a ].update( ctx, msg[ 4 ] + pos, c, &err ); pos += c;
		if( r != 1 || err ) { mc_say( "%s: update %ld returns %d%s", ref_name[ a ], i, r, err ? " with an error" : "" ); if( err ) mc_err_free( &err ); bad = 1; }
	}
	if( !bad ) bad = fin_check( a, 4, ctx, pos, "very many pieces" );
	api[ a ].free( &ctx, &err );
	return bad;
}
int mc_eval( const long *v, int n ) { return v[ 1 ] == -1 ? run_cycle( v ) : v[ 1 ] == -4 ? run_shift( v ) : v[ 1 ] == -5 ? run_many( v ) : v[ 1 ] == -6 ? run_path( (const long[]){ v[ 0 ], 4, v[ 2 ], v[ 3 ], v[ 4 ] }, 5, NULL ) : run_path( v, n, NULL ); }
static long find( const snap_t *s, int pos )
{
	long i;
	for( i = head[ ( s->h0 ^ pos ) & ( HB - 1 ) ]; i >= 0; i = nxt[ i ] )
		if( st[ i ].pos == pos && st[ i ].s.n == s->n && st[ i ].s.h0 == s->h0 && st[ i ].s.h1 == s->h1 ) return i;
	return -1;
}
static int add( snap_t s, int pos, int parent, int chunk )
{
	unsigned b = ( s.h0 ^ pos ) & ( HB - 1 );
	if( nst == cst ) { cst = cst ? cst * 2 : 4096; st = realloc( st, cst * sizeof *st ); nxt = realloc( nxt, cst * sizeof *nxt ); }
	st[ nst ].s = s; st[ nst ].pos = pos; st[ nst ].parent = parent; st[ nst ].chunk = chunk;
	nxt[ nst ] = head[ b ]; head[ b ] = nst;
	return nst++;
}
static void explore( int a, int p, int N, long cap )
{
	int pos, r; void *err = NULL; long v[ 1400 ]; int n; long i, trunc = 0;
	long *at; /* states per position, as a list */
	for( i = 0; i < HB; i++ ) head[ i ] = -1;
	nst = 0; ctx0 = NULL;
	v[ 0 ] = a; v[ 1 ] = p; mc_cur( v, 2 );
	if( api[ a ].init( &ctx0, &err ) != 1 ) { mc_say( "initializing fails" ); mc_report( v, 2 ); return; }
	{ snap_t s; snap_take( &s ); add( s, 0, -1, 0 ); }
	at = malloc( sizeof( long ) * 64 );
	for( pos = 0; pos <= N; pos++ )
		for( i = 0; i < nst; i++ )
		{
			if( st[ i ].pos != pos ) continue;
			snap_restore( &st[ i ].s );
			v[ 2 ] = -2; v[ 3 ] = i; mc_cur( v, 4 );
			if( fin_check( a, p, ctx0, pos, "pieces" ) ) { path_of( i, v, &n, a, p ); mc_report( v, n ); }
			mc_evals++;
			for( int k = 0; k <= N - pos + 3; k++ )
			{
				/* beyond the bound: three long updates that are finalized but not followed further */
				int far = k > N - pos, c = !far ? k : k == N - pos + 1 ? (int) ref_block[ a ] * 7 + 5 : k == N - pos + 2 ? 4096 : 8191;
				snap_t s; long o;
				snap_restore( &st[ i ].s );
				v[ 2 ] = -3; v[ 3 ] = i; v[ 4 ] = c; mc_cur( v, 5 );
				r = api[ a ].update( ctx0, msg[ p ] + pos, c, &err );
				mc_transitions++;
				if( r != 1 || err )
				{
					mc_say( "%s: update of %d bytes after %d bytes returns %d%s", ref_name[ a ], c, pos, r, err ? " with an error" : "" );
					if( err ) mc_err_free( &err );
					path_of( i, v, &n, a, p ); v[ n++ ] = c; mc_report( v, n );
					continue;
				}
				if( far )
				{
					if( fin_check( a, p, ctx0, pos + c, "pieces" ) ) { path_of( i, v, &n, a, p ); v[ n++ ] = c; mc_report( v, n ); }
					mc_evals++;
					continue;
				}
				snap_take( &s );
				o = find( &s, pos + c );
				if( o >= 0 || nst >= cap ) { snap_free( &s ); if( o < 0 ) trunc++; continue; }
				o = add( s, pos + c, i, c );
				if( ( o & ( o - 1 ) ) == 0 ) { path_of( o, v, &n, a, p ); mc_sample( v, n > 12 ? 12 : n ); }
			}
		}
	mc_states += nst; mc_nontrivial += nst;
	if( trunc ) { printf( "MCNOTE %s %s: state cap reached, %ld new states not followed\n", mc_tag, ref_name[ a ], trunc ); }
	/* bind the snapshots to plain execution: every discovered path again from a
	 * fresh context, must end in the very state recorded and in the right digest */
	snap_restore( &st[ 0 ].s );
	api[ a ].free( &ctx0, &err );
	for( i = 0; i < nst; i++ )
	{
		snap_t s = { 0 };
		path_of( i, v, &n, a, p ); mc_cur( v, n );
		if( run_path( v, n, &s ) ) mc_report( v, n );
		else if( s.d && s.h0 == st[ i ].s.h0 && s.h1 == st[ i ].s.h1 ) mc_traces++;
		snap_free( &s ); snap_free( &st[ i ].s );
	}
	free( at );
}
void mc_enumerate( void )
{
	for( int a = 0; a < NALG; a++ )
		for( int p = 0; p < ( mc_thorough ? 4 : 2 ); p++ )
			if( mc_mine() )
			{
				int pp[ 4 ] = { 4, 1, 0, 6 };
				explore( a, pp[ p ], ( mc_thorough ? 5 : 3 ) * (int) ref_block[ a ] + 9, mc_thorough ? 400000 : 60000 );
			}
	/* long messages in alternating piece sizes */
	for( long a = 0; a < NALG; a++ )
	{
		long B = ref_block[ a ];
		for( long c = 1; c <= 2 * B + 2; c++ ) MC_DO( a, -1, c, c, 65500, 0 );
		for( long c = 1; c <= 2 * B + 2; c++ ) for( long d = 0; d <= 2 * B + 2; d += mc_thorough ? 1 : 1 + B / 16 ) MC_DO( a, -1, c, d, mc_thorough ? 9000 : 3001, 0 );
		for( long c = 4000; c <= 4200; c++ ) MC_DO( a, -1, c, 1, 65500, 0 );
		/* every alignment of the data of each of two updates */
		for( long c = 0; c <= B + 8; c++ ) for( long d = 0; d <= 2 * B; d++ ) for( long al = 0; al < 16; al++ ) MC_DO( a, -4, al, c, d, mc_thorough ? ( al * 7 + c ) & 15 : ( al + d ) & 15 );
		if( mc_thorough ) for( long c = 0; c <= B + 8; c++ ) for( long d = 0; d <= 2 * B; d += 3 ) for( long al = 0; al < 256; al++ ) MC_DO( a, -4, al & 15, c, d, al >> 4 );
		/* very many updates */
		for( long k = 0; k < 6; k++ ) { MC_DO( a, -5, k, 300 ); MC_DO( a, -5, k, 33000 ); MC_DO( a, -5, k, 66000 ); if( k < 4 ) MC_DO( a, -5, k, 1100000 ); }
		/* large updates in any state */
		for( long k = 13; k <= ( mc_thorough ? 21 : 18 ); k++ ) for( long x = -2; x <= 2; x++ ) for( long o = 0; o <= B; o++ ) MC_DO( a, -6, o, ( 1L << k ) + x * ( x == 2 || x == -2 ? B / 2 : 1 ), k & 1 ? 5 : B + 1 );
	}
}
