#include <string.h>
#include "ref.h"
#include "ref_k.h"
const char *ref_name[ NALG ] = { "md5", "sha1", "sha224", "sha256", "sha512" };
const size_t ref_dlen[ NALG ] = { 16, 20, 28, 32, 64 };
const size_t ref_block[ NALG ] = { 64, 64, 64, 64, 128 };
static const uint32_t H_1[ 5 ] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
static const uint8_t S_md5[ 4 ][ 4 ] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
#define L32( x, n ) ( (uint32_t) ( ( (uint32_t) ( x ) << ( n ) ) | ( (uint32_t) ( x ) >> ( 32 - ( n ) ) ) ) )
#define R32( x, n ) L32( x, 32 - ( n ) )
#define R64( x, n ) ( ( ( x ) >> ( n ) ) | ( ( x ) << ( 64 - ( n ) ) ) )
static void block( ref_t *r, const uint8_t *p )
{
	int i;
	if( r->alg == MD5 )
	{
		uint32_t w[ 16 ], a = r->h[ 0 ], b = r->h[ 1 ], c = r->h[ 2 ], d = r->h[ 3 ], f, g, t;
		for( i = 0; i < 16; i++ ) w[ i ] = p[ 4*i ] | p[ 4*i+1 ] << 8 | p[ 4*i+2 ] << 16 | (uint32_t) p[ 4*i+3 ] << 24;
		for( i = 0; i < 64; i++ )
		{
			if( i < 16 ) { f = ( b & c ) | ( ~b & d ); g = i; }
			else if( i < 32 ) { f = ( d & b ) | ( ~d & c ); g = ( 5 * i + 1 ) & 15; }
			else if( i < 48 ) { f = b ^ c ^ d; g = ( 3 * i + 5 ) & 15; }
			else { f = c ^ ( b | ~d ); g = ( 7 * i ) & 15; }
			t = a + f + K_md5[ i ] + w[ g ];
			a = d; d = c; c = b;
			b += L32( t, S_md5[ i / 16 ][ i & 3 ] );
		}
		r->h[ 0 ] = (uint32_t) ( r->h[ 0 ] + a ); r->h[ 1 ] = (uint32_t) ( r->h[ 1 ] + b );
		r->h[ 2 ] = (uint32_t) ( r->h[ 2 ] + c ); r->h[ 3 ] = (uint32_t) ( r->h[ 3 ] + d );
	}
	else if( r->alg == SHA1 )
	{
		uint32_t w[ 80 ], a = r->h[ 0 ], b = r->h[ 1 ], c = r->h[ 2 ], d = r->h[ 3 ], e = r->h[ 4 ], f, k, t;
		for( i = 0; i < 16; i++ ) w[ i ] = (uint32_t) p[ 4*i ] << 24 | p[ 4*i+1 ] << 16 | p[ 4*i+2 ] << 8 | p[ 4*i+3 ];
		for( ; i < 80; i++ ) w[ i ] = L32( w[ i-3 ] ^ w[ i-8 ] ^ w[ i-14 ] ^ w[ i-16 ], 1 );
		for( i = 0; i < 80; i++ )
		{
			if( i < 20 ) { f = ( b & c ) | ( ~b & d ); k = 0x5a827999; }
			else if( i < 40 ) { f = b ^ c ^ d; k = 0x6ed9eba1; }
			else if( i < 60 ) { f = ( b & c ) | ( b & d ) | ( c & d ); k = 0x8f1bbcdc; }
			else { f = b ^ c ^ d; k = 0xca62c1d6; }
			t = L32( a, 5 ) + f + e + k + w[ i ];
			e = d; d = c; c = L32( b, 30 ); b = a; a = t;
		}
		r->h[ 0 ] = (uint32_t) ( r->h[ 0 ] + a ); r->h[ 1 ] = (uint32_t) ( r->h[ 1 ] + b );
		r->h[ 2 ] = (uint32_t) ( r->h[ 2 ] + c ); r->h[ 3 ] = (uint32_t) ( r->h[ 3 ] + d );
		r->h[ 4 ] = (uint32_t) ( r->h[ 4 ] + e );
	}
	else if( r->alg == SHA512 )
	{
		uint64_t w[ 80 ], v[ 8 ], t1, t2;
		for( i = 0; i < 16; i++ ) { uint64_t x = 0; for( int j = 0; j < 8; j++ ) x = x << 8 | p[ 8*i+j ]; w[ i ] = x; }
		for( ; i < 80; i++ )
			w[ i ] = w[ i-16 ] + ( R64( w[ i-15 ], 1 ) ^ R64( w[ i-15 ], 8 ) ^ w[ i-15 ] >> 7 ) + w[ i-7 ]
			       + ( R64( w[ i-2 ], 19 ) ^ R64( w[ i-2 ], 61 ) ^ w[ i-2 ] >> 6 );
		for( i = 0; i < 8; i++ ) v[ i ] = r->h[ i ];
		for( i = 0; i < 80; i++ )
		{
			t1 = v[ 7 ] + ( R64( v[ 4 ], 14 ) ^ R64( v[ 4 ], 18 ) ^ R64( v[ 4 ], 41 ) ) + ( ( v[ 4 ] & v[ 5 ] ) ^ ( ~v[ 4 ] & v[ 6 ] ) ) + K_512[ i ] + w[ i ];
			t2 = ( R64( v[ 0 ], 28 ) ^ R64( v[ 0 ], 34 ) ^ R64( v[ 0 ], 39 ) ) + ( ( v[ 0 ] & v[ 1 ] ) ^ ( v[ 0 ] & v[ 2 ] ) ^ ( v[ 1 ] & v[ 2 ] ) );
			v[ 7 ] = v[ 6 ]; v[ 6 ] = v[ 5 ]; v[ 5 ] = v[ 4 ]; v[ 4 ] = v[ 3 ] + t1; v[ 3 ] = v[ 2 ]; v[ 2 ] = v[ 1 ]; v[ 1 ] = v[ 0 ]; v[ 0 ] = t1 + t2;
		}
		for( i = 0; i < 8; i++ ) r->h[ i ] += v[ i ];
	}
	else
	{
		uint32_t w[ 64 ], v[ 8 ], t1, t2;
		for( i = 0; i < 16; i++ ) w[ i ] = (uint32_t) p[ 4*i ] << 24 | p[ 4*i+1 ] << 16 | p[ 4*i+2 ] << 8 | p[ 4*i+3 ];
		for( ; i < 64; i++ )
			w[ i ] = w[ i-16 ] + ( R32( w[ i-15 ], 7 ) ^ R32( w[ i-15 ], 18 ) ^ w[ i-15 ] >> 3 ) + w[ i-7 ]
			       + ( R32( w[ i-2 ], 17 ) ^ R32( w[ i-2 ], 19 ) ^ w[ i-2 ] >> 10 );
		for( i = 0; i < 8; i++ ) v[ i ] = (uint32_t) r->h[ i ];
		for( i = 0; i < 64; i++ )
		{
			t1 = v[ 7 ] + ( R32( v[ 4 ], 6 ) ^ R32( v[ 4 ], 11 ) ^ R32( v[ 4 ], 25 ) ) + ( ( v[ 4 ] & v[ 5 ] ) ^ ( ~v[ 4 ] & v[ 6 ] ) ) + K_256[ i ] + w[ i ];
			t2 = ( R32( v[ 0 ], 2 ) ^ R32( v[ 0 ], 13 ) ^ R32( v[ 0 ], 22 ) ) + ( ( v[ 0 ] & v[ 1 ] ) ^ ( v[ 0 ] & v[ 2 ] ) ^ ( v[ 1 ] & v[ 2 ] ) );
			v[ 7 ] = v[ 6 ]; v[ 6 ] = v[ 5 ]; v[ 5 ] = v[ 4 ]; v[ 4 ] = v[ 3 ] + t1; v[ 3 ] = v[ 2 ]; v[ 2 ] = v[ 1 ]; v[ 1 ] = v[ 0 ]; v[ 0 ] = t1 + t2;
		}
		for( i = 0; i < 8; i++ ) r->h[ i ] = (uint32_t) ( r->h[ i ] + v[ i ] );
	}
}
void ref_init( ref_t *r, int alg )
{
	int i;
	memset( r, 0, sizeof *r );
	r->alg = alg;
	for( i = 0; i < 8; i++ )
		r->h[ i ] = alg == MD5 ? ( i < 4 ? H_1[ i ] : 0 ) : alg == SHA1 ? ( i < 5 ? H_1[ i ] : 0 )
		          : alg == SHA224 ? H_224[ i ] : alg == SHA256 ? H_256[ i ] : H_512[ i ];
}
void ref_update( ref_t *r, const void *p, size_t n )
{
	const uint8_t *b = p; size_t B = ref_block[ r->alg ], o = r->n % B;
	r->n += n;
	if( o > 0 )
	{
		size_t m = B - o; if( m > n ) m = n;
		memcpy( r->buf + o, b, m ); b += m; n -= m;
		if( o + m < B ) return;
		block( r, r->buf );
	}
	for( ; n >= B; b += B, n -= B ) block( r, b );
	if( n > 0 ) memcpy( r->buf, b, n );
}
size_t ref_state( const ref_t *r, uint8_t *out )
{
	size_t i, n = r->alg == MD5 ? 16 : r->alg == SHA1 ? 20 : r->alg == SHA512 ? 64 : 32;
	for( i = 0; i < n; i++ )
		out[ i ] = r->alg == MD5 ? r->h[ i / 4 ] >> ( 8 * ( i & 3 ) )
		         : r->alg == SHA512 ? r->h[ i / 8 ] >> ( 56 - 8 * ( i & 7 ) ) : r->h[ i / 4 ] >> ( 24 - 8 * ( i & 3 ) );
	return n;
}
void ref_final( ref_t *r, uint8_t *out )
{
	uint8_t pad[ 256 ], st[ 64 ]; size_t B = ref_block[ r->alg ], L = B == 128 ? 16 : 8, o = r->n % B, n, i;
	uint64_t bits = r->n * 8, hi = r->n >> 61;
	memset( pad, 0, sizeof pad );
	pad[ 0 ] = 0x80;
	n = ( o + 1 + L <= B ? B : 2 * B ) - o;
	for( i = 0; i < 8; i++ )
		if( r->alg == MD5 ) pad[ n - 8 + i ] = bits >> ( 8 * i );
		else { pad[ n - 1 - i ] = bits >> ( 8 * i ); if( L == 16 ) pad[ n - 9 - i ] = hi >> ( 8 * i ); }
	ref_update( r, pad, n );
	ref_state( r, st );
	memcpy( out, st, ref_dlen[ r->alg ] );
}
void ref_digest( int alg, const void *p, size_t n, uint8_t *out )
{
	ref_t r; ref_init( &r, alg ); ref_update( &r, p, n ); ref_final( &r, out );
}
void ref_hmac( int alg, const void *k, size_t kn, const void *p, size_t n, uint8_t *out )
{
	uint8_t key[ 128 ], d[ 64 ]; size_t B = ref_block[ alg ], i; ref_t r;
	memset( key, 0, sizeof key );
	if( kn > B ) ref_digest( alg, k, kn, key ); else if( kn ) memcpy( key, k, kn );
	for( i = 0; i < B; i++ ) key[ i ] ^= 0x36;
	ref_init( &r, alg ); ref_update( &r, key, B ); ref_update( &r, p, n ); ref_final( &r, d );
	for( i = 0; i < B; i++ ) key[ i ] ^= 0x36 ^ 0x5c;
	ref_init( &r, alg ); ref_update( &r, key, B ); ref_update( &r, d, ref_dlen[ alg ] ); ref_final( &r, out );
}
