/* Long messages.  v = [ alg, kind, ... ]
 *  0: c, s1, s2, s3   fed in 2 MiB calls up to 1024 bytes before boundary c, then calls of s1, s2, s3 bytes (0 at the end: none)
 *  1: L               one-shot digest of L bytes
 *  2: m, L            two updates of m and L - m bytes
 *  3: L               HMAC of L bytes with a 20 byte key
 *  4: L               HMAC with a key of L bytes
 *  5: s1, s2, ...     updates of s1, s2, ... bytes
 * Kind 0 keeps the context's memory at each boundary and explores all continuations from there. */
#include "h.h"
#include "largemap.h"
const char *mc_rule( void ) { return ""; }
extern void mc_through_header( void );
void mc_init( void )
{
	mc_hang_s = 500; mc_through_header();
	large_map( sizeof( long ) == 4 ? 1ULL << 31 : mc_thorough || mc_replaying ? 1ULL << 33 : 1ULL << 32 );
	for( int a = 0; a < NALG; a++ )
	{
		uint8_t o[ 64 ]; void *c = NULL, *e = NULL;
		api[ a ].calc( big, 300, o, 64, &e ); api[ a ].hmac( big, 3, big, 300, o, 64, &e );
		api[ a ].init( &c, &e ); api[ a ].update( c, big, 9, &e ); api[ a ].final( c, o, 64, &e ); api[ a ].free( &c, &e );
	}
	mc_amode = A_ARENA;
}
static int judge( int a, int r, void **err, const uint8_t *out, const uint8_t *want, const char *what, uint64_t L )
{
	if( r != 1 || *err ) { mc_say( "%s: %s (%llu bytes) returns %d%s", ref_name[ a ], what, (unsigned long long) L, r, *err ? " with an error" : "" ); if( *err ) mc_err_free( err ); return 1; }
	if( memcmp( out, want, ref_dlen[ a ] ) ) { mc_say( "%s: %s (%llu bytes) gives %s, the standard says %s", ref_name[ a ], what, (unsigned long long) L, mc_hex( out, ref_dlen[ a ] ), mc_hex( want, ref_dlen[ a ] ) ); return 1; }
	return 0;
}
static int tail( int a, void *ctx, int c, const long *s, int n )
{
	uint8_t out[ 64 ], want[ 64 ]; void *err = NULL; uint64_t pos = lck_base[ c ] - LBACK; int r = 1;
	for( int i = 0; i < n; i++ )
	{
		r = api[ a ].update( ctx, part( pos, s[ i ] ), s[ i ], &err ); pos += s[ i ]; mc_transitions++;
		if( r != 1 || err ) return judge( a, r, &err, NULL, NULL, "update ending at", pos );
	}
	want_of( a, 0, pos, want ); memset( out, 0xee, sizeof out );
	r = api[ a ].final( ctx, out, ref_dlen[ a ], &err );
	return judge( a, r, &err, out, want, "many updates", pos );
}
static int feed( int a, void *ctx, uint64_t *pos, uint64_t to )
{
	void *err = NULL;
	for( ; *pos < to; )
	{
		uint64_t n = to - *pos; int r; if( n > LUNIT ) n = LUNIT;
		r = api[ a ].update( ctx, part( *pos, n ), n, &err ); *pos += n; mc_transitions++;
		if( r != 1 || err ) return judge( a, r, &err, NULL, NULL, "update ending at", *pos );
	}
	return 0;
}
int mc_eval( const long *v, int n )
{
	uint8_t out[ 64 ], want[ 64 ], in[ 64 ]; void *err = NULL, *ctx = NULL; int a = v[ 0 ], r = 0, bad = 0; uint64_t pos = 0, L;
	memset( out, 0xee, sizeof out ); mc_nontrivial++;
	switch( v[ 1 ] )
	{
		case 0:
			if( api[ a ].init( &ctx, &err ) != 1 ) { mc_say( "cannot create a context" ); return 1; }
			bad = feed( a, ctx, &pos, lck_base[ v[ 2 ] ] - LBACK ) || tail( a, ctx, v[ 2 ], v + 3, n - 3 );
			api[ a ].free( &ctx, NULL );
			return bad;
		case 1: L = v[ 2 ]; want_of( a, 0, L, want ); r = api[ a ].calc( big, L, out, ref_dlen[ a ], &err ); return judge( a, r, &err, out, want, "one-shot digest", L );
		case 2:
			L = v[ 3 ]; want_of( a, 0, L, want );
			if( api[ a ].init( &ctx, &err ) != 1 ) { mc_say( "cannot create a context" ); return 1; }
			r = api[ a ].update( ctx, big, v[ 2 ], &err );
			if( r == 1 && !err ) r = api[ a ].update( ctx, big + v[ 2 ], L - v[ 2 ], &err );
			if( r == 1 && !err ) r = api[ a ].final( ctx, out, ref_dlen[ a ], &err );
			bad = judge( a, r, &err, out, want, "two updates", L );
			api[ a ].free( &ctx, NULL );
			return bad;
		case 5:
			if( api[ a ].init( &ctx, &err ) != 1 ) { mc_say( "cannot create a context" ); return 1; }
			for( r = 1, L = 0; n > 2 && r == 1 && !err; v++, n-- ) { r = api[ a ].update( ctx, part( L, v[ 2 ] ), v[ 2 ], &err ); L += v[ 2 ]; }
			if( r == 1 && !err ) r = api[ a ].final( ctx, out, ref_dlen[ a ], &err );
			want_of( a, 0, L, want );
			bad = judge( a, r, &err, out, want, "updates", L );
			api[ a ].free( &ctx, NULL );
			return bad;
		case 3: case 4:
		{
			uint8_t kb[ 128 ], t[ 192 ]; size_t i, B = ref_block[ a ], D = ref_dlen[ a ];
			L = v[ 2 ]; memset( kb, 0, sizeof kb );
			if( v[ 1 ] == 3 ) { memcpy( kb, lkey, LKEY ); want_of( a, 1, L, in ); r = api[ a ].hmac( lkey, LKEY, big, L, out, D, &err ); }
			else
			{
				want_of( a, 0, L, kb ); memset( kb + D, 0, sizeof kb - D );
				for( i = 0; i < B; i++ ) t[ i ] = kb[ i ] ^ 0x36;
				memcpy( t + B, big, 10 ); ref_digest( a, t, B + 10, in );
				r = api[ a ].hmac( big, L, big, 10, out, D, &err );
			}
			for( i = 0; i < B; i++ ) t[ i ] = kb[ i ] ^ 0x5c;
			memcpy( t + B, in, D ); ref_digest( a, t, B + D, want );
			return judge( a, r, &err, out, want, v[ 1 ] == 3 ? "HMAC of a long message" : "HMAC with a long key", L );
		}
	}
	return 0;
}
static void explore( int a, int last )
{
	static const long S[] = { 1, 2, 8, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 896, 960, 1016, 1023, 1024, 1025, 1032, 1088, 1152, 65536 };
	void *ctx = NULL, *err = NULL; uint64_t pos = 0; long v[ 6 ]; long NS = sizeof S / sizeof *S;
	if( !mc_mine() ) return;
	if( api[ a ].init( &ctx, &err ) != 1 ) { v[ 0 ] = a; v[ 1 ] = v[ 2 ] = 0; mc_say( "cannot create a context" ); mc_report( v, 3 ); return; }
	for( int c = 0; c <= last; c++ )
	{
		snap_t s;
		v[ 0 ] = a; v[ 1 ] = 0; v[ 2 ] = c; mc_cur( v, 3 );
		if( feed( a, ctx, &pos, lck_base[ c ] - LBACK ) ) { mc_report( v, 3 ); return; }
		snap_take( &s ); mc_states++;
		for( long t = -1; t < 2200 + NS * NS + ( mc_thorough ? NS * NS * NS : 0 ); t++ )
		{
			int n = 0;
			if( t >= 0 && t < 2200 ) v[ 3 ] = t, n = 1;
			else if( t >= 2200 + NS * NS ) { long u = t - 2200 - NS * NS; v[ 3 ] = S[ u / NS / NS ]; v[ 4 ] = S[ u / NS % NS ]; v[ 5 ] = S[ u % NS ]; n = 3; }
			else if( t >= 2200 ) v[ 3 ] = S[ ( t - 2200 ) / NS ], v[ 4 ] = S[ ( t - 2200 ) % NS ], n = 2;
			mc_cur( v, 3 + n ); mc_evals++; mc_traces++; mc_nontrivial++;
			snap_restore( &s );
			if( tail( a, ctx, c, v + 3, n ) ) mc_report( v, 3 + n );
		}
		snap_restore( &s ); mc_sample( v, 5 );
		snap_free( &s );
	}
	api[ a ].free( &ctx, &err );
}
void mc_enumerate( void )
{
	const char *w = strchr( mc_tag, '-' ) + 1; int T = mc_thorough; long G;
	if( sizeof( long ) == 4 )
	{
		/* a 32 bit platform: the largest size of one call is 2^31 - 1 */
		long M = 0x7fffffff, E = ( 1L << 29 ) + 1;
		for( long a = 0; a < NALG; a++ )
		{
			explore( a, T ? 4 : 3 );
			MC_DO( a, 1, E ); MC_DO( a, 3, E ); MC_DO( a, 4, E );
			if( T ) { MC_DO( a, 1, M ); MC_DO( a, 1, M / 2 + 1 ); MC_DO( a, 1, M - 100 ); MC_DO( a, 3, M ); MC_DO( a, 4, M ); MC_DO( a, 5, M, 2, M, 300 ); MC_DO( a, 5, 1, M, M ); }
		}
		return;
	}
	G = (long) ( 1ULL << 32 );
	for( long a = 0; a < NALG; a++ )
	{
		if( strchr( w, 's' ) ) explore( a, T ? 4 : 3 );
		if( strchr( w, 'c' ) ) { MC_DO( a, 1, G + 13 ); MC_DO( a, 1, G / 8 + 1 ); }
		if( strchr( w, 'x' ) ) MC_DO( a, 1, G / 8 + 1 );
		if( strchr( w, 'u' ) ) { MC_DO( a, 2, G / 2 + 7, G + 130 ); MC_DO( a, 2, 1, G + 78 ); }
		if( strchr( w, 'm' ) ) MC_DO( a, 3, G + 29 );
		if( strchr( w, 'k' ) ) MC_DO( a, 4, G + 3 );
		if( T )
		{
			for( long k = -1; k < 2; k++ ) { MC_DO( a, 1, G + k ); MC_DO( a, 1, G / 2 + k ); MC_DO( a, 1, G / 2 + 200 + k ); MC_DO( a, 1, G / 8 + k ); MC_DO( a, 1, G / 4 + k ); }
			MC_DO( a, 1, 2 * G + 77 ); MC_DO( a, 2, G - 1, 2 * G + 1 ); MC_DO( a, 2, G + 63, 2 * G + 64 );
			MC_DO( a, 3, G ); MC_DO( a, 3, G / 2 - 3 ); MC_DO( a, 4, G ); MC_DO( a, 4, G / 2 + 1 ); MC_DO( a, 4, G / 8 + 1 );
		}
	}
}
