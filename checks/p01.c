/* One-shot digests over an enumerated message space.
 * v = [ alg, kind, a, b, c, d ]
 *  kind 0: pattern a, length b, alignment c
 *  kind 1: length a, background pattern b, position c holds byte d
 *  kind 2: length a (0..3), bytes of the value b
 *  kind 3: length a, all zero (b=0) or all ones (b=1) with bits c and d flipped
 *  kind 4: pattern a, length b (large)
 *  kind 5: repeated word: length a, 8 byte value index b */
#include "h.h"
static uint8_t *buf; static size_t bufn = ( 1UL << 27 ) + 4096;
const char *mc_rule( void ) { return ""; }
static void fill( int p, size_t n, uint8_t *d ) { for( size_t i = 0; i < n; i++ ) d[ i ] = mc_pat( p, i ); }
static uint8_t *pats[ NPAT ]; static size_t patn = 1 << 15;
static const uint64_t words[] = { 0, ~0ULL, 0x8000000000000000ULL, 0x8000000080000000ULL, 1, 0x0000000100000001ULL, 0x7fffffff7fffffffULL,
	0xffffffff00000000ULL, 0x00000000ffffffffULL, 0x0123456789abcdefULL, 0xefcdab8967452301ULL, 0x5c5c5c5c5c5c5c5cULL, 0x3636363636363636ULL, 0xff00ff00ff00ff00ULL };
void mc_init( void )
{
	buf = mmap( NULL, bufn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	for( int p = 0; p < NPAT; p++ ) { pats[ p ] = malloc( patn ); fill( p, patn, pats[ p ] ); }
}
int mc_eval( const long *v, int n )
{
	uint8_t out[ 64 ], want[ 64 ]; void *err = NULL; int a = v[ 0 ], r; size_t len = 0; uint8_t *m = buf; long live = mc_live, sets = mc_err_sets;
	(void) n;
	switch( v[ 1 ] )
	{
		case 0: case 4:
			m = buf + ( v[ 1 ] == 0 ? v[ 4 ] : 0 ); len = v[ 3 ];
			if( len <= patn ) memcpy( m, pats[ v[ 2 ] ], len ); else fill( v[ 2 ], len, m );
			break;
		case 1: len = v[ 2 ]; memcpy( m, pats[ v[ 3 ] ], len ); m[ v[ 4 ] ] = v[ 5 ]; break;
		case 2: len = v[ 2 ]; m[ 0 ] = v[ 3 ]; m[ 1 ] = v[ 3 ] >> 8; m[ 2 ] = v[ 3 ] >> 16; break;
		case 3: len = v[ 2 ]; memset( m, v[ 3 ] ? 0xff : 0, len ); m[ v[ 4 ] >> 3 ] ^= 1 << ( v[ 4 ] & 7 ); m[ v[ 5 ] >> 3 ] ^= 1 << ( v[ 5 ] & 7 ); break;
		case 5: len = v[ 2 ]; for( size_t i = 0; i < len; i++ ) m[ i ] = words[ v[ 3 ] ] >> ( 8 * ( i & 7 ) ); break;
	}
	memset( out, 0xee, sizeof out );
	r = api[ a ].calc( m, len, out, ref_dlen[ a ], &err );
	ref_digest( a, m, len, want );
	if( len > 0 ) mc_nontrivial++;
	if( err != NULL ) { mc_err_free( &err ); mc_say( "%s of a %zu byte message sets an error", ref_name[ a ], len ); return 1; }
	if( r != 1 ) { mc_say( "%s of a %zu byte message returns %d", ref_name[ a ], len, r ); return 1; }
	if( memcmp( out, want, ref_dlen[ a ] ) != 0 ) { mc_say( "%s of a %zu byte message is %s, the standard says %s", ref_name[ a ], len, mc_hex( out, ref_dlen[ a ] ), mc_hex( want, ref_dlen[ a ] ) ); return 1; }
	(void) live; (void) sets;
	return 0;
}
void mc_enumerate( void )
{
	int T = mc_thorough;
	for( long a = 0; a < NALG; a++ )
	{
		long B = ref_block[ a ], L;
		/* every length, every pattern */
		for( L = 0; L <= ( T ? 33000 : 16500 ); L++ )
			for( long p = 0; p < ( L <= 1100 ? NPAT : T ? 3 : 1 ); p++ ) MC_DO( a, 0, L <= 1100 ? p : p + 4, L, 0, 0 );
		/* every alignment */
		for( L = 0; L <= ( T ? 600 : 300 ); L++ )
			for( long al = 1; al < ( T ? 64 : 16 ); al++ ) MC_DO( a, 0, 4, L, al, 0 );
		/* every byte value at every position */
		for( long k = 0; k < ( T ? 6 : 4 ); k++ )
		{
			long lens[ 6 ] = { B - 1, 2 * B + 9, B, B + B / 8 * 7, 3 * B, 1 };
			for( long pos = 0; pos < lens[ k ]; pos++ )
				for( long b = 0; b < 256; b++ )
					for( long bg = 0; bg < ( T ? 3 : 2 ); bg++ ) MC_DO( a, 1, lens[ k ], bg * 2, pos, b );
		}
		/* every message of up to two (three) bytes */
		MC_DO( a, 2, 0, 0, 0, 0 );
		for( long b = 0; b < 256; b++ ) MC_DO( a, 2, 1, b, 0, 0 );
		for( long b = 0; b < 65536; b++ ) MC_DO( a, 2, 2, b, 0, 0 );
		if( T ) for( long b = 0; b < 1 << 24; b++ ) MC_DO( a, 2, 3, b, 0, 0 );
		/* every pair of bits of a one block message (c == d: none flipped) */
		for( long bg = 0; bg < 2; bg++ )
			for( long c = 0; c < ( B - B / 8 - 1 ) * 8; c++ )
				for( long d = c; d < ( B - B / 8 - 1 ) * 8; d += T ? 1 : 5 ) MC_DO( a, 3, B - B / 8 - 1, bg, c, d );
		/* special words repeated over one, two and three blocks */
		for( unsigned long w = 0; w < sizeof words / sizeof *words; w++ ) for( L = 1; L <= 3 * B; L++ ) MC_DO( a, 5, L, (long) w, 0, 0 );
		/* multiples of round numbers, as buffers come */
		for( long k = 1; k <= 64; k++ ) { MC_DO( a, 4, 4, k * 1000, 0, 0 ); MC_DO( a, 4, 4, k * 4096, 0, 0 ); MC_DO( a, 4, 4, k * 32768, 0, 0 ); MC_DO( a, 4, 4, k * 100000 + k, 0, 0 ); }
		/* around powers of two */
		for( long k = 12; k <= ( T ? 26 : 24 ); k++ )
			for( long d = -130; d <= 130; d++ )
				if( k <= ( T ? 20 : 18 ) || ( k <= 21 && ( d % 8 == 0 || d % 8 == -1 || d % 8 == 1 ) ) || ( T && d % 64 == 0 ) || ( d > -3 && d < 3 ) || d == 56 || d == -8 || d == 112 )
					MC_DO( a, 4, 4, ( 1L << k ) + d, 0, 0 );
	}
}
