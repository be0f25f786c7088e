/* What is in a block of memory at the moment it is given back?
 * v = [ alg, op, x, y, mode, mask ]
 *  op 0: HMAC, key of x bytes, message of y bytes; op 1: one-shot digest of x bytes
 *  op 2: context fed x then y bytes, freed without finalizing; op 3: the same, finalized first
 *  op 4: context fed with a padded key of one block and x more bytes, then freed
 *  op 5: as 3, looking at the finalized context itself (built-in digests only)
 *  mode 0 valid call; 1 message missing; 2 message size above the maximum; 3 output missing; 4 output size too large, 5 too small
 *  mask: allocations that fail */
#include "h.h"
#ifdef MC_OPENSSL
#include <openssl/crypto.h>
#endif
const char *mc_rule( void ) { return ""; }
static uint8_t msg[ ( 2 << 20 ) + 64 ], key[ ( 1 << 20 ) + 64 ];
static unsigned long mask; static long nseen, nfailed;
static int failer( long k, size_t n ) { (void) n; nseen = k + 1; if( k < 63 && ( mask >> k & 1 ) ) { nfailed++; return 1; } return 0; }
/* needles: byte strings whose 8 byte windows must not be found */
enum { MAXN = 48, W = 8 };
static struct { const char *what; uint8_t b[ 2048 ]; size_t n; } nd[ MAXN ]; static int nnd;
static void needle( const char *what, const void *p, size_t n ) { if( n < W || nnd == MAXN ) return; if( n > sizeof nd[ 0 ].b ) n = sizeof nd[ 0 ].b; nd[ nnd ].what = what; memcpy( nd[ nnd ].b, p, n ); nd[ nnd++ ].n = n; }
/* of a long text: its first and last bytes */
static void ends( const char *what, const uint8_t *p, size_t n ) { if( n <= 2048 ) needle( what, p, n ); else { needle( what, p, 768 ); needle( what, p + n - 768, 768 ); } }
/* chaining value in the machine's word order and in byte stream order */
static void state_needle( const char *what, const ref_t *r )
{
	uint8_t b[ 64 ]; size_t n = ref_state( r, b ), i;
	needle( what, b, n );
	if( r->alg == SHA512 ) needle( what, r->h, 64 );
	else { uint32_t w[ 8 ]; for( i = 0; i < 8; i++ ) w[ i ] = r->h[ i ]; needle( what, w, n ); }
}
static const char *hit; static long scans;
/* a needle window is looked up by its first 8 bytes in a small hash table */
enum { HT = 1 << 14 };
static uint64_t ht[ HT ]; static short hw[ HT ]; static int used[ HT ], nused;
static unsigned hf( uint64_t k ) { return k * 0x9e3779b97f4a7c15ULL >> 50; }
static void index_needles( void )
{
	while( nused > 0 ) hw[ used[ --nused ] ] = 0;
	for( int k = 0; k < nnd; k++ ) for( size_t i = 0; i + W <= nd[ k ].n; i++ )
	{
		uint64_t q; unsigned s; memcpy( &q, nd[ k ].b + i, 8 );
		/* windows that are not characteristic (constant bytes) are no evidence */
		if( q == (uint8_t) q * 0x0101010101010101ULL ) continue;
		for( s = hf( q ); hw[ s ]; s = ( s + 1 ) & ( HT - 1 ) ) if( ht[ s ] == q ) break;
		if( !hw[ s ] && nused < HT / 2 ) { ht[ s ] = q; hw[ s ] = k + 1; used[ nused++ ] = s; }
	}
}
static const char *scan( const uint8_t *p, size_t n )
{
	scans++;
	for( size_t i = 0; i + W <= n; i++ )
	{
		uint64_t q; unsigned s; memcpy( &q, p + i, 8 );
		for( s = hf( q ); hw[ s ]; s = ( s + 1 ) & ( HT - 1 ) ) if( ht[ s ] == q ) return nd[ hw[ s ] - 1 ].what;
	}
	return NULL;
}
static void onfree( void *p, size_t n ) { const char *h = hit ? NULL : scan( p, n ); if( h ) hit = h; }
static void arm( void ) { index_needles(); hit = NULL; scans = 0; mc_on_free = onfree; mc_alloc_reset(); nseen = nfailed = 0; mc_fail = failer; }
static void disarm( void )
{
	mc_fail = NULL;
#ifdef MC_OPENSSL
	OPENSSL_thread_stop();
#endif
	mc_on_free = NULL;
}
static void states_of( const char *what, int a, const uint8_t *first, const uint8_t *m, size_t n )
{
	/* after the keyed block and after every further whole block */
	ref_t r; size_t B = ref_block[ a ];
	ref_init( &r, a );
	if( first ) { ref_update( &r, first, B ); state_needle( what, &r ); }
	for( size_t i = 0; i + B <= n; i += B ) { ref_update( &r, m + i, B ); if( i < 3 * B || i + 4 * B > n ) state_needle( what, &r ); }
}
int mc_eval( const long *v, int nv )
{
	int a = v[ 0 ], op = v[ 1 ], mode = v[ 4 ], r = 0; size_t x = v[ 2 ], y = v[ 3 ], B = ref_block[ a ], D = ref_dlen[ a ], i; uint8_t out[ 64 ], k0[ 128 ], ip[ 128 ], opd[ 128 ], hk[ 64 ], inner[ 64 ]; void *ctx = NULL, *err = NULL; const api_t *f = &api[ a ]; ref_t rr; (void) nv;
	const char *what = op == 0 ? "HMAC" : op == 1 ? "one-shot digest" : "context";
	nnd = 0; mask = v[ 5 ]; mc_nontrivial++;
	if( op == 0 )
	{
		memset( k0, 0, sizeof k0 );
		ends( "the key", key, x );
		if( x > B ) { ref_digest( a, key, x, hk ); memcpy( k0, hk, D ); needle( "the hashed key", hk, D ); } else memcpy( k0, key, x );
		for( i = 0; i < B; i++ ) { ip[ i ] = k0[ i ] ^ 0x36; opd[ i ] = k0[ i ] ^ 0x5c; }
		if( x >= W || x > B ) { needle( "the inner padded key", ip, B ); needle( "the outer padded key", opd, B ); }
		if( x > B ) { ref_init( &rr, a ); ref_update( &rr, key, x ); ref_final( &rr, inner ); state_needle( "the hashed key", &rr ); states_of( "a digest state of the key", a, NULL, key, x ); }
		if( mode == 0 || mode >= 3 ) ends( "message bytes", msg, y );
		states_of( "a keyed digest state", a, ip, msg, mode == 1 || mode == 2 ? 0 : y );
		states_of( "a keyed digest state", a, opd, msg, 0 );
		arm();
		r = f->hmac( key, x, mode == 1 ? NULL : msg, mode == 2 ? (size_t) SSIZE_MAX + 1 : y, mode == 3 ? NULL : out, mode == 4 ? (size_t) SSIZE_MAX + 1 : mode == 5 ? D - 1 : D, &err );
		disarm();
	}
	else if( op == 1 )
	{
		ends( "message bytes", msg, x );
		arm();
		r = f->calc( msg, x, mode == 3 ? NULL : out, mode == 4 ? (size_t) SSIZE_MAX + 1 : mode == 5 ? D - 1 : D, &err );
		disarm();
	}
	else
	{
		if( op == 4 )
		{
			for( i = 0; i < B; i++ ) ip[ i ] = key[ i ] ^ 0x36;
			needle( "the padded key", ip, B ); states_of( "a keyed digest state", a, ip, msg, x ); ends( "message bytes", msg, x );
		}
		else { ends( "message bytes", msg, x + y ); states_of( "a digest state", a, NULL, msg, x + y ); }
		if( op == 5 || op == 3 ) { ref_init( &rr, a ); ref_update( &rr, msg, x + y ); ref_final( &rr, inner ); if( op == 5 ) state_needle( "the final digest state", &rr ); }
		if( f->init( &ctx, NULL ) != 1 ) { mc_say( "%s: set up fails", ref_name[ a ] ); return 1; }
		arm();
		if( op == 4 ) f->update( ctx, ip, B, NULL );
		f->update( ctx, msg, x, NULL ); if( op != 4 ) f->update( ctx, msg + x, y, NULL );
		if( op == 3 || op == 5 ) f->final( ctx, out, D, NULL );
		if( op == 5 )
		{
			const char *h = scan( ctx, mc_block_size( ctx ) );
			if( h ) { disarm(); f->free( &ctx, NULL ); mc_say( "%s: a context finalized after updates of %zu and %zu bytes still contains %s", ref_name[ a ], x, y, h ); return 1; }
		}
		f->free( &ctx, NULL );
		disarm();
	}
	if( err ) mc_err_free( &err );
	(void) r;
	if( hit ) { mc_say( "%s %s (op %d, %zu, %zu, mode %d, allocations %#lx failing) returned %d and released memory that contains %s", ref_name[ a ], what, op, x, y, mode, mask, r, hit ); return 1; }
	return 0;
}
static void tree( long *v, int from, int left )
{
	long n, i; unsigned long m = v[ 5 ];
	mc_cur( v, 6 ); mc_evals++;
	if( mc_eval( v, 6 ) ) { mc_report( v, 6 ); return; }
	if( ( mc_evals & ( mc_evals - 1 ) ) == 0 ) mc_sample( v, 6 );
	n = nseen;
	if( left == 0 ) return;
	for( i = from; i < n && i < 63; i++ ) { v[ 5 ] = m | 1UL << i; tree( v, i + 1, left - 1 ); }
	v[ 5 ] = m;
}
void mc_init( void )
{
	uint8_t o[ 64 ]; void *c;
	for( size_t i = 0; i < sizeof msg; i++ ) msg[ i ] = mc_pat( 4, i );
	for( size_t i = 0; i < sizeof key; i++ ) key[ i ] = mc_pat( 7, i );
	for( int a = 0; a < NALG; a++ ) { api[ a ].calc( msg, 3, o, 64, NULL ); api[ a ].hmac( key, 200, msg, 3, o, 64, NULL ); api[ a ].hmac( key, 200, NULL, 3, o, 64, NULL ); c = NULL; api[ a ].init( &c, NULL ); api[ a ].free( &c, NULL ); }
	disarm(); mc_err_live = 0;
}
void mc_enumerate( void )
{
	int T = mc_thorough, F = mc_tag[ 0 ] == 'F';
	for( long a = 0; a < NALG; a++ )
	{
		long B = ref_block[ a ], D = ref_dlen[ a ], x, y, m;
		long L[] = { 8, D, B / 2 + 5, B - 9, B - 1, B, B + 1, 2 * B + 9, 3 * B }, M[] = { 0, 9, B - 9, B - 1, B, B + 20, 3 * B + 9 };
		for( int i = 0; i < 9; i++ ) for( int j = 0; j < 7; j++ ) for( m = 0; m < 6; m++ )
		{
			long v[] = { a, 0, L[ i ], M[ j ], m, 0 };
			if( mc_mine() ) tree( v, 0, T ? 3 : 1 );
			if( j == 0 && m != 1 && m != 2 ) { long w[] = { a, 1, L[ i ], 0, m, 0 }; if( mc_mine() ) tree( w, 0, T ? 3 : 2 ); }
		}
		static const long H[] = { 255, 256, 500, 1000, 1024, 1025, 2048, 4096, 4097, 8192, 16384, 32769, 65536, 65537, 131072, 1 << 20 };
		for( int i = 0; i < (int) ( sizeof H / sizeof *H ); i++ )
		{
			long s[][ 6 ] = { { a, 0, H[ i ], 20, 0, 0 }, { a, 0, 20, H[ i ], 0, 0 }, { a, 0, H[ i ], H[ i ], 0, 0 }, { a, 0, H[ i ], 20, 1, 0 }, { a, 0, H[ i ], 20, 3, 0 }, { a, 0, 20, H[ i ], 4, 0 }, { a, 0, 20, H[ i ], 5, 0 },
				{ a, 1, H[ i ], 0, 0, 0 }, { a, 1, H[ i ], 0, 3, 0 }, { a, 1, H[ i ], 0, 5, 0 }, { a, 2, 0, H[ i ], 0, 0 }, { a, 2, 7, H[ i ], 0, 0 }, { a, 3, 7, H[ i ], 0, 0 }, { a, 3, H[ i ], H[ i ], 0, 0 }, { a, 4, H[ i ], 0, 0, 0 }, { a, 4, H[ i ] + 7, 0, 0, 0 } };
			for( int j = 0; j < (int) ( sizeof s / sizeof *s ); j++ ) if( mc_mine() ) tree( s[ j ], 0, T ? 3 : 2 );
			if( F ) { MC_DO( a, 5, 7, H[ i ], 0, 0 ); MC_DO( a, 5, H[ i ], 9, 0, 0 ); }
		}
		for( x = 0; x <= 2 * B + 9; x++ ) for( y = 0; y <= ( T ? 2 * B + 9 : B + 9 ); y += T ? 1 : 9 ) { MC_DO( a, 2, x, y, 0, 0 ); MC_DO( a, 3, x, y, 0, 0 ); if( F ) MC_DO( a, 5, x, y, 0, 0 ); }
		for( x = 0; x <= 3 * B; x++ ) { MC_DO( a, 4, x, 0, 0, 0 ); MC_DO( a, 1, x, 0, 0, 0 ); MC_DO( a, 0, x + 8, 20, 0, 0 ); }
	}
}
