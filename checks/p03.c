/* One-shot HMAC over an enumerated key and message space.
 * v = [ alg, kind, a, b, c, d, e ]
 *  kind 0: key pattern a length b, message pattern c length d, output size dlen + e
 *  kind 1: key of length a with byte b at position c over background d, message length e
 *  kind 2: key of length a (0..2) with bytes of b, message of length c (0..1) byte d
 *  kind 3: key length a, message length b, with the message lying at offset c inside the key's memory (shared memory)
 *  kind 4: message of length a with byte b at position c, key length d
 *  kind 5: key alignment a, message alignment b, output alignment c, key length d, message length e */
#include "h.h"
static uint8_t kb[ ( 1 << 17 ) + 4096 ], *mb, ob[ 70000 ];
const char *mc_rule( void ) { return ""; }
static uint8_t *pats[ NPAT ]; static const size_t patn = ( 1 << 17 ) + 4096;
void mc_init( void )
{
	mb = malloc( ( 1UL << 23 ) + 64 );
	for( int p = 0; p < NPAT; p++ ) { pats[ p ] = malloc( patn ); for( size_t i = 0; i < patn; i++ ) pats[ p ][ i ] = mc_pat( p, i ); }
	for( size_t i = 0; i < ( 1UL << 23 ); i++ ) mb[ i ] = mc_pat( 4, i );
}
int mc_eval( const long *v, int n )
{
	uint8_t want[ 64 ], *out = ob, *k = kb, *m = mb; void *err = NULL; int a = v[ 0 ], r; size_t kl = 0, ml = 0, ol = ref_dlen[ a ]; (void) n;
	switch( v[ 1 ] )
	{
		case 0: kl = v[ 3 ]; ml = v[ 5 ]; ol += v[ 6 ]; memcpy( kb, pats[ v[ 2 ] ], kl ); m = ml <= patn ? pats[ v[ 4 ] ] : mb; break;
		case 1: kl = v[ 2 ]; ml = v[ 6 ]; memcpy( kb, pats[ v[ 5 ] ], kl ); kb[ v[ 4 ] ] = v[ 3 ]; m = pats[ 7 ]; break;
		case 2: kl = v[ 2 ]; kb[ 0 ] = v[ 3 ]; kb[ 1 ] = v[ 3 ] >> 8; ml = v[ 4 ]; m = (uint8_t *) ob + 1000; m[ 0 ] = v[ 5 ]; break;
		case 3: kl = v[ 2 ]; ml = v[ 3 ]; memcpy( kb, pats[ 4 ], 4096 ); m = kb + v[ 4 ]; break;
		case 4: ml = v[ 2 ]; kl = v[ 5 ]; memcpy( kb, pats[ 7 ], kl ); m = (uint8_t *) ob + 2000; memcpy( m, pats[ 0 ], ml ); m[ v[ 4 ] ] = v[ 3 ]; break;
		case 5: k = kb + v[ 2 ]; m = ob + 3008 + v[ 3 ]; out = ob + v[ 4 ]; kl = v[ 5 ]; ml = v[ 6 ]; memcpy( k, pats[ 7 ], kl ); memcpy( m, pats[ 4 ], ml ); break;
	}
	memset( out, 0xee, ref_dlen[ a ] + 8 );
	ref_hmac( a, k, kl, m, ml, want );
	r = api[ a ].hmac( k, kl, m, ml, out, ol, &err );
	mc_nontrivial += kl > 0 || ml > 0;
	if( err != NULL ) { mc_err_free( &err ); mc_say( "HMAC-%s, key of %zu, message of %zu bytes: an error is set", ref_name[ a ], kl, ml ); return 1; }
	if( r != 1 ) { mc_say( "HMAC-%s, key of %zu, message of %zu bytes: returns %d", ref_name[ a ], kl, ml, r ); return 1; }
	if( memcmp( out, want, ref_dlen[ a ] ) != 0 ) { mc_say( "HMAC-%s, key of %zu, message of %zu bytes, output size %zu: %s, RFC 2104 says %s", ref_name[ a ], kl, ml, ol, mc_hex( out, ref_dlen[ a ] ), mc_hex( want, ref_dlen[ a ] ) ); return 1; }
	return 0;
}
void mc_enumerate( void )
{
	int T = mc_thorough; long a, kl, ml, x, p;
	for( a = 0; a < NALG; a++ )
	{
		long B = ref_block[ a ], D = ref_dlen[ a ], KM = T ? 5 * B + 3 : 3 * B + 10, MM = T ? 3 * B + 3 : 2 * B + 19;
		for( kl = 0; kl <= KM; kl++ ) for( ml = 0; ml <= MM; ml++ )
			for( p = 0; p < ( T ? 4 : 1 ); p++ ) MC_DO( a, 0, p == 0 ? 4 : p - 1, kl, p == 0 ? 7 : p, ml, 0 );
		/* long keys, long messages */
		for( kl = 0; kl <= ( T ? 70000 : 20000 ); kl++ ) MC_DO( a, 0, 7, kl, 4, kl % 7, 0 );
		for( ml = 0; ml <= ( T ? 20000 : 9000 ); ml++ ) for( kl = 0; kl < 3; kl++ ) MC_DO( a, 0, 7, kl == 0 ? 5 : kl == 1 ? B : B + 1, 4, ml, 0 );
		for( long k = 12; k <= ( T ? 22 : 20 ); k++ ) for( x = -70; x <= 70; x++ )
		{
			if( !T && k > 14 && x % 8 != 0 && ( x < -1 || x > 1 ) ) continue;
			if( k <= 17 ) MC_DO( a, 0, 7, ( 1L << k ) + x, 4, 9, 0 );
			MC_DO( a, 0, 7, 20, 4, ( 1L << k ) + x, 0 );
		}
		/* long keys with long messages */
		for( long k = 7; k <= 14; k++ ) for( x = -1; x <= 1; x++ ) for( long j = 7; j <= 16; j++ ) for( long y = -1; y <= 1; y++ ) MC_DO( a, 0, 7, ( 1L << k ) + x, 4, ( 1L << j ) + y, x + 1 );
		/* larger output buffers */
		for( x = 0; x <= ( T ? 600 : 300 ); x++ ) for( kl = 0; kl < 5; kl++ ) for( ml = 0; ml < 4; ml++ )
		{
			long K[ 5 ] = { 0, 11, B, B + 1, 3 * B }, M[ 4 ] = { 0, 1, B - 9, 2 * B };
			MC_DO( a, 0, 4, K[ kl ], 7, M[ ml ], x );
		}
		MC_DO( a, 0, 4, 20, 7, 20, 4096 ); MC_DO( a, 0, 4, 20, 7, 20, 65536 - D );
		/* every key byte value at every position */
		for( x = 0; x < 3; x++ )
		{
			long K[ 3 ] = { B, D, B + 7 };
			for( long pos = 0; pos < K[ x ]; pos++ ) for( long b = 0; b < 256; b++ ) for( p = 0; p < ( T ? 3 : 1 ); p++ ) MC_DO( a, 1, K[ x ], b, pos, p * 2, 3 );
		}
		/* every key of 0, 1 and 2 bytes with every message of 0 and (for short keys) 1 byte */
		MC_DO( a, 2, 0, 0, 0, 0, 0 );
		for( x = 0; x < 256; x++ ) { MC_DO( a, 2, 1, x, 0, 0, 0 ); MC_DO( a, 2, 0, 0, 1, x, 0 ); for( p = 0; p < 256; p++ ) MC_DO( a, 2, 1, x, 1, p, 0 ); }
		for( x = 0; x < 65536; x++ ) { MC_DO( a, 2, 2, x, 0, 0, 0 ); if( T ) for( p = 0; p < 256; p += 17 ) MC_DO( a, 2, 2, x, 1, p, 0 ); }
		/* key and message in the same memory */
		for( kl = 0; kl <= 2 * B; kl += T ? 1 : 3 ) for( ml = 0; ml <= 2 * B; ml += T ? 1 : 5 ) for( x = 0; x <= B; x += B / 8 ) MC_DO( a, 3, kl, ml, x, 0, 0 );
		for( long pos = 0; pos < B + 3; pos++ ) for( long b = 0; b < 256; b++ ) MC_DO( a, 4, B + 3, b, pos, 13, 0 );
		for( long i = 0; i < 8; i++ ) for( long j = 0; j < 8; j++ ) for( long k = 0; k < 8; k++ ) for( kl = 0; kl < 4; kl++ )
		{
			long K[ 4 ] = { 0, 9, B, B + 30 };
			MC_DO( a, 5, i, j, k, K[ kl ], B - 1 );
		}
	}
}
