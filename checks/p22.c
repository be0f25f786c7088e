/* Byte order, rotation and block copy macros, called as the tree defines them.
 * v = [ macro, kind, a, b, c ]; kinds: see mc_eval. Macros the tree does not have are skipped. */
#include "h.h"
#include <common.h>
#include <types.h>
#include <byte_stream.h>
#include "libhmac_byte_stream.h"
const char *mc_rule( void ) { return ""; }
void mc_init( void ) {}
static const char *nm[] = { "to_uint16_big", "to_uint16_little", "to_uint24_big", "to_uint24_little", "to_uint32_big", "to_uint32_little", "to_uint48_big", "to_uint48_little", "to_uint64_big", "to_uint64_little" };
static const int wid[] = { 2, 2, 3, 3, 4, 4, 6, 6, 8, 8 };
enum { NW = 10 };
static int have_to( int m )
{
	switch( m ) {
#define H( i, n ) case i: return n;
#ifdef byte_stream_copy_to_uint16_big_endian
	H( 0, 1 )
#endif
#ifdef byte_stream_copy_to_uint16_little_endian
	H( 1, 1 )
#endif
#ifdef byte_stream_copy_to_uint24_big_endian
	H( 2, 1 )
#endif
#ifdef byte_stream_copy_to_uint24_little_endian
	H( 3, 1 )
#endif
#ifdef byte_stream_copy_to_uint32_big_endian
	H( 4, 1 )
#endif
#ifdef byte_stream_copy_to_uint32_little_endian
	H( 5, 1 )
#endif
#ifdef byte_stream_copy_to_uint48_big_endian
	H( 6, 1 )
#endif
#ifdef byte_stream_copy_to_uint48_little_endian
	H( 7, 1 )
#endif
#ifdef byte_stream_copy_to_uint64_big_endian
	H( 8, 1 )
#endif
#ifdef byte_stream_copy_to_uint64_little_endian
	H( 9, 1 )
#endif
	}
	return 0;
}
static int have_from( int m )
{
	switch( m ) {
#ifdef byte_stream_copy_from_uint16_big_endian
	H( 0, 1 )
#endif
#ifdef byte_stream_copy_from_uint16_little_endian
	H( 1, 1 )
#endif
#ifdef byte_stream_copy_from_uint24_big_endian
	H( 2, 1 )
#endif
#ifdef byte_stream_copy_from_uint24_little_endian
	H( 3, 1 )
#endif
#ifdef byte_stream_copy_from_uint32_big_endian
	H( 4, 1 )
#endif
#ifdef byte_stream_copy_from_uint32_little_endian
	H( 5, 1 )
#endif
#ifdef byte_stream_copy_from_uint48_big_endian
	H( 6, 1 )
#endif
#ifdef byte_stream_copy_from_uint48_little_endian
	H( 7, 1 )
#endif
#ifdef byte_stream_copy_from_uint64_big_endian
	H( 8, 1 )
#endif
#ifdef byte_stream_copy_from_uint64_little_endian
	H( 9, 1 )
#endif
	}
	return 0;
}
typedef struct { uint64_t pad; union { uint16_t v16; uint32_t v32; uint64_t v64; } u; } cell_t;
/* read: stream and value given as expressions; the destination holds old beforehand */
static uint64_t rd( int m, const uint8_t *base, int off, uint64_t old )
{
	cell_t c[ 2 ]; int i = 1; c[ 0 ].u.v64 = c[ 1 ].u.v64 = old;
	switch( m ) {
#ifdef byte_stream_copy_to_uint16_big_endian
	case 0: byte_stream_copy_to_uint16_big_endian( base + off, c[ i ].u.v16 ); return c[ 1 ].u.v16;
#endif
#ifdef byte_stream_copy_to_uint16_little_endian
	case 1: byte_stream_copy_to_uint16_little_endian( base + off, c[ i ].u.v16 ); return c[ 1 ].u.v16;
#endif
#ifdef byte_stream_copy_to_uint24_big_endian
	case 2: byte_stream_copy_to_uint24_big_endian( base + off, c[ i ].u.v32 ); return c[ 1 ].u.v32;
#endif
#ifdef byte_stream_copy_to_uint24_little_endian
	case 3: byte_stream_copy_to_uint24_little_endian( base + off, c[ i ].u.v32 ); return c[ 1 ].u.v32;
#endif
#ifdef byte_stream_copy_to_uint32_big_endian
	case 4: byte_stream_copy_to_uint32_big_endian( base + off, c[ i ].u.v32 ); return c[ 1 ].u.v32;
#endif
#ifdef byte_stream_copy_to_uint32_little_endian
	case 5: byte_stream_copy_to_uint32_little_endian( base + off, c[ i ].u.v32 ); return c[ 1 ].u.v32;
#endif
#ifdef byte_stream_copy_to_uint48_big_endian
	case 6: byte_stream_copy_to_uint48_big_endian( base + off, c[ i ].u.v64 ); return c[ 1 ].u.v64;
#endif
#ifdef byte_stream_copy_to_uint48_little_endian
	case 7: byte_stream_copy_to_uint48_little_endian( base + off, c[ i ].u.v64 ); return c[ 1 ].u.v64;
#endif
#ifdef byte_stream_copy_to_uint64_big_endian
	case 8: byte_stream_copy_to_uint64_big_endian( base + off, c[ i ].u.v64 ); return c[ 1 ].u.v64;
#endif
#ifdef byte_stream_copy_to_uint64_little_endian
	case 9: byte_stream_copy_to_uint64_little_endian( base + off, c[ i ].u.v64 ); return c[ 1 ].u.v64;
#endif
	}
	return 0;
}
static void wr( int m, uint8_t *base, int off, uint64_t x )
{
	uint16_t a = x; uint32_t b = x; uint64_t c = x, z = 0;
	switch( m ) {
#ifdef byte_stream_copy_from_uint16_big_endian
	case 0: byte_stream_copy_from_uint16_big_endian( base + off, a | z ); break;
#endif
#ifdef byte_stream_copy_from_uint16_little_endian
	case 1: byte_stream_copy_from_uint16_little_endian( base + off, a | z ); break;
#endif
#ifdef byte_stream_copy_from_uint24_big_endian
	case 2: byte_stream_copy_from_uint24_big_endian( base + off, b | z ); break;
#endif
#ifdef byte_stream_copy_from_uint24_little_endian
	case 3: byte_stream_copy_from_uint24_little_endian( base + off, b | z ); break;
#endif
#ifdef byte_stream_copy_from_uint32_big_endian
	case 4: byte_stream_copy_from_uint32_big_endian( base + off, b ); break;
#endif
#ifdef byte_stream_copy_from_uint32_little_endian
	case 5: byte_stream_copy_from_uint32_little_endian( base + off, b ); break;
#endif
#ifdef byte_stream_copy_from_uint48_big_endian
	case 6: byte_stream_copy_from_uint48_big_endian( base + off, c | z ); break;
#endif
#ifdef byte_stream_copy_from_uint48_little_endian
	case 7: byte_stream_copy_from_uint48_little_endian( base + off, c | z ); break;
#endif
#ifdef byte_stream_copy_from_uint64_big_endian
	case 8: byte_stream_copy_from_uint64_big_endian( base + off, c ); break;
#endif
#ifdef byte_stream_copy_from_uint64_little_endian
	case 9: byte_stream_copy_from_uint64_little_endian( base + off, c ); break;
#endif
	}
}
/* one value of one width: x holds the bytes in stream order, first byte lowest */
static int io( int m, uint64_t x, uint64_t old )
{
	uint8_t s[ 24 ], t[ 24 ]; int w = wid[ m ], i; uint64_t want = 0, got; static const uint64_t top[] = { 0, ~0ULL };
	memset( s, 0xc3, sizeof s );
	for( i = 0; i < w; i++ ) s[ 5 + i ] = x >> ( 8 * i );
	for( i = 0; i < w; i++ ) want |= (uint64_t) s[ 5 + i ] << ( 8 * ( m & 1 ? i : w - 1 - i ) );
	if( have_to( m ) )
	{
		memcpy( t, s, sizeof s );
		got = rd( m, s, 5, old );
		if( got != want ) { mc_say( "byte_stream_copy_%s_endian of %s is %#llx, not %#llx (destination held %#llx)", nm[ m ], mc_hex( s + 5, w ), (unsigned long long) got, (unsigned long long) want, (unsigned long long) old ); return 1; }
		if( memcmp( s, t, sizeof s ) ) { mc_say( "byte_stream_copy_%s_endian changes the stream", nm[ m ] ); return 1; }
	}
	if( have_from( m ) )
		for( int k = 0; k < 2; k++ )
		{
			/* bits beyond the width must not matter */
			uint64_t y = want | ( w == 3 ? (uint64_t) ( top[ k ] & 0xff000000u ) : w == 6 ? top[ k ] << 48 : 0 );
			memset( t, 0xc3, sizeof t );
			wr( m, t, 5, y );
			if( memcmp( s, t, sizeof s ) ) { mc_say( "byte_stream_copy_from%s_endian of %#llx writes %s, not %s", nm[ m ] + 2, (unsigned long long) y, mc_hex( t, 18 ), mc_hex( s, 18 ) ); return 1; }
		}
	return 0;
}
static const char *rn[] = { "left_8bit", "right_8bit", "left_16bit", "right_16bit", "left_32bit", "right_32bit", "left_64bit", "right_64bit", "left (8)", "right (8)", "left (16)", "right (16)", "left (32)", "right (32)", "left (64)", "right (64)" };
static int rot( int m, uint64_t x, int d, int alt )
{
	int w = 8 << ( m % 8 / 2 ), right = m & 1, n1 = d - 1; uint64_t want, got, z = 0; uint64_t msk = w == 64 ? ~0ULL : ( 1ULL << w ) - 1;
	uint8_t a = x, az = 0; uint16_t b = x, bz = 0; uint32_t c = x, cz = 0; uint64_t e = x;
	x &= msk; got = want = ( right ? x >> d | x << ( w - d ) : x << d | x >> ( w - d ) ) & msk;
	switch( m )
	{
/* the operands once as names, once as expressions with operators that bind loosely */
#ifdef byte_stream_bit_rotate_left_8bit
		case 0: got = (uint8_t) ( alt ? byte_stream_bit_rotate_left_8bit( a ^ az, n1 | d ) : byte_stream_bit_rotate_left_8bit( a, d ) ); break;
#endif
#ifdef byte_stream_bit_rotate_right_8bit
		case 1: got = (uint8_t) ( alt ? byte_stream_bit_rotate_right_8bit( a ^ az, n1 | d ) : byte_stream_bit_rotate_right_8bit( a, d ) ); break;
#endif
#ifdef byte_stream_bit_rotate_left_16bit
		case 2: got = (uint16_t) ( alt ? byte_stream_bit_rotate_left_16bit( b ^ bz, n1 | d ) : byte_stream_bit_rotate_left_16bit( b, d ) ); break;
#endif
#ifdef byte_stream_bit_rotate_right_16bit
		case 3: got = (uint16_t) ( alt ? byte_stream_bit_rotate_right_16bit( b ^ bz, n1 | d ) : byte_stream_bit_rotate_right_16bit( b, d ) ); break;
#endif
#ifdef byte_stream_bit_rotate_left_32bit
		case 4: got = (uint32_t) ( alt ? byte_stream_bit_rotate_left_32bit( c ^ cz, n1 | d ) : byte_stream_bit_rotate_left_32bit( c, d ) ); break;
#endif
#ifdef byte_stream_bit_rotate_right_32bit
		case 5: got = (uint32_t) ( alt ? byte_stream_bit_rotate_right_32bit( c ^ cz, n1 | d ) : byte_stream_bit_rotate_right_32bit( c, d ) ); break;
#endif
#ifdef byte_stream_bit_rotate_left_64bit
		case 6: got = alt ? byte_stream_bit_rotate_left_64bit( e ^ z, n1 | d ) : byte_stream_bit_rotate_left_64bit( e, d ); break;
#endif
#ifdef byte_stream_bit_rotate_right_64bit
		case 7: got = alt ? byte_stream_bit_rotate_right_64bit( e ^ z, n1 | d ) : byte_stream_bit_rotate_right_64bit( e, d ); break;
#endif
#ifdef byte_stream_bit_rotate_left
		case 8: got = (uint8_t) ( byte_stream_bit_rotate_left( a, d ) ); break;
		case 10: got = (uint16_t) ( byte_stream_bit_rotate_left( b, d ) ); break;
		case 12: got = (uint32_t) ( alt ? byte_stream_bit_rotate_left( c ^ cz, n1 | d ) : byte_stream_bit_rotate_left( c, d ) ); break;
		case 14: got = alt ? byte_stream_bit_rotate_left( e ^ z, n1 | d ) : byte_stream_bit_rotate_left( e, d ); break;
#endif
#ifdef byte_stream_bit_rotate_right
		case 9: got = (uint8_t) ( byte_stream_bit_rotate_right( a, d ) ); break;
		case 11: got = (uint16_t) ( byte_stream_bit_rotate_right( b, d ) ); break;
		case 13: got = (uint32_t) ( alt ? byte_stream_bit_rotate_right( c ^ cz, n1 | d ) : byte_stream_bit_rotate_right( c, d ) ); break;
		case 15: got = alt ? byte_stream_bit_rotate_right( e ^ z, n1 | d ) : byte_stream_bit_rotate_right( e, d ); break;
#endif
	}
	(void) az; (void) bz; (void) cz; (void) z;
	if( got != want ) { mc_say( "byte_stream_bit_rotate_%s of %#llx by %d is %#llx, not %#llx", rn[ m ], (unsigned long long) x, d, (unsigned long long) got, (unsigned long long) want ); return 1; }
	return 0;
}
/* block copies: byte at position pos holds b, the rest background; old destination contents must not matter */
static const char *bn[] = { "1x_uint32_big", "1x_uint32_little", "16x_uint32_big", "16x_uint32_little", "1x_uint64_big", "1x_uint64_little", "16x_uint64_big", "16x_uint64_little" };
static int blk( int m, int pos, int b, int bg )
{
	uint8_t s[ 140 ]; uint32_t w32[ 18 ]; uint64_t w64[ 18 ]; int big = m >= 4, little = m & 1, one = !( m >> 1 & 1 ), i, j, idx = -1, W = big ? 8 : 4;
	const uint8_t *p = s, *q = s + 3;
	memset( w32, 0xd7, sizeof w32 ); memset( w64, 0xd7, sizeof w64 );
	for( i = 0; i < 140; i++ ) s[ i ] = bg == 0 ? 0 : bg == 1 ? 0xff : mc_pat( 4, i );
	s[ 3 + pos ] = b;
	if( one ) idx = pos / W;
	(void) p;
	switch( m )
	{
#ifdef libhmac_byte_stream_copy_to_1x_uint32_big_endian
		case 0: libhmac_byte_stream_copy_to_1x_uint32_big_endian( p + 3, w32, idx ) break;
#else
		case 0: return 0;
#endif
#ifdef libhmac_byte_stream_copy_to_1x_uint32_little_endian
		case 1: libhmac_byte_stream_copy_to_1x_uint32_little_endian( p + 3, w32, idx ) break;
#else
		case 1: return 0;
#endif
#ifdef libhmac_byte_stream_copy_to_16x_uint32_big_endian
		case 2: libhmac_byte_stream_copy_to_16x_uint32_big_endian( q, w32 ) break;
#else
		case 2: return 0;
#endif
#ifdef libhmac_byte_stream_copy_to_16x_uint32_little_endian
		case 3: libhmac_byte_stream_copy_to_16x_uint32_little_endian( q, w32 ) break;
#else
		case 3: return 0;
#endif
#ifdef libhmac_byte_stream_copy_to_1x_uint64_big_endian
		case 4: libhmac_byte_stream_copy_to_1x_uint64_big_endian( p + 3, w64, idx ) break;
#else
		case 4: return 0;
#endif
#ifdef libhmac_byte_stream_copy_to_1x_uint64_little_endian
		case 5: libhmac_byte_stream_copy_to_1x_uint64_little_endian( p + 3, w64, idx ) break;
#else
		case 5: return 0;
#endif
#ifdef libhmac_byte_stream_copy_to_16x_uint64_big_endian
		case 6: libhmac_byte_stream_copy_to_16x_uint64_big_endian( q, w64 ) break;
#else
		case 6: return 0;
#endif
#ifdef libhmac_byte_stream_copy_to_16x_uint64_little_endian
		case 7: libhmac_byte_stream_copy_to_16x_uint64_little_endian( q, w64 ) break;
#else
		case 7: return 0;
#endif
	}
	for( i = 0; i < 18; i++ )
	{
		uint64_t want = 0, got = big ? w64[ i ] : w32[ i ], old = big ? 0xd7d7d7d7d7d7d7d7ULL : 0xd7d7d7d7;
		if( ( one && i == idx ) || ( !one && i < 16 ) ) for( j = 0; j < W; j++ ) want |= (uint64_t) s[ 3 + i * W + j ] << ( 8 * ( little ? j : W - 1 - j ) );
		else want = old;
		if( got != want ) { mc_say( "libhmac_byte_stream_copy_to_%s_endian: word %d of %s is %#llx, not %#llx", bn[ m ], i, mc_hex( s + 3 + i * W, W ), (unsigned long long) got, (unsigned long long) want ); return 1; }
	}
	return 0;
}
int mc_eval( const long *v, int n )
{
	(void) n; mc_nontrivial++;
	switch( v[ 1 ] )
	{
		case 0: return io( v[ 0 ], (uint64_t) v[ 2 ], v[ 3 ] );
		case 1: return rot( v[ 0 ], v[ 2 ], v[ 3 ], v[ 4 ] );
		case 2: return blk( v[ 0 ], v[ 2 ], v[ 3 ], v[ 4 ] );
		case 3:
		{
			byte_stream_float32_t f; byte_stream_float64_t d; uint32_t x = v[ 2 ]; uint64_t y = (uint64_t) v[ 2 ] * 0x100000001ULL; float ff; double dd;
			f.integer = x; memcpy( &ff, &x, 4 ); d.integer = y; memcpy( &dd, &y, 8 );
			if( memcmp( &f.floating_point, &ff, 4 ) || memcmp( &d.floating_point, &dd, 8 ) || sizeof f != 4 || sizeof d != 8 ) { mc_say( "float of %#x differs", x ); return 1; }
			return 0;
		}
		case 4:
		{
			int little = 1; little = *(char *) &little;
			if( ( _BYTE_STREAM_HOST_IS_ENDIAN_LITTLE ) != little || ( _BYTE_STREAM_HOST_IS_ENDIAN_BIG ) == little || _BYTE_STREAM_HOST_IS_ENDIAN_MIDDLE ) { mc_say( "the byte order of the host is reported wrongly" ); return 1; }
			return 0;
		}
	}
	return 0;
}
void mc_enumerate( void )
{
	static const long olds[] = { 0, -1, 0x0123456789abcdefL }; int T = mc_thorough;
	for( long m = 0; m < NW; m++ )
	{
		long w = wid[ m ];
		/* every byte value at every position, three backgrounds, three old destination contents */
		for( long pos = 0; pos < w; pos++ ) for( long b = 0; b < 256; b++ ) for( int bg = 0; bg < 3; bg++ ) for( int o = 0; o < 3; o++ )
		{
			uint64_t x = bg == 0 ? 0 : bg == 1 ? ~0ULL : 0xf1e2d3c4b5a69788ULL;
			x = ( x & ~( 255ULL << ( 8 * pos ) ) ) | (uint64_t) b << ( 8 * pos );
			MC_DO( m, 0, (long) x, olds[ o ] );
		}
		/* every pair of positions: every two byte values */
		for( long p = 0; p < w; p++ ) for( long q = p + 1; q < w; q++ ) for( long b = 0; b < 65536; b++ ) MC_DO( m, 0, (long) ( (uint64_t) ( b & 255 ) << ( 8 * p ) | (uint64_t) ( b >> 8 ) << ( 8 * q ) ), -1 );
		if( w == 3 ) for( long x = 0; x < 1 << 24; x++ ) MC_DO( m, 0, x, -1 );
		if( w == 4 && T ) for( long x = 0; x < 1L << 32; x += 3 ) MC_DO( m, 0, x, -1 );
	}
	for( long m = 0; m < 16; m++ )
	{
		long w = 8 << ( m % 8 / 2 );
		for( long d = 1; d < w; d++ ) for( long alt = 0; alt < 2; alt++ )
		{
			if( alt && ( d & 1 ) == 0 ) continue;    /* d - 1 | d is d for odd d only */
			if( w == 8 ) for( long x = 0; x < 256; x++ ) MC_DO( m, 1, x, d, alt );
			if( w == 16 ) for( long x = 0; x < 65536; x++ ) MC_DO( m, 1, x, d, alt );
			if( w >= 32 ) for( long i = 0; i < w; i++ ) for( long j = i; j < w; j++ ) for( long inv = 0; inv < 2; inv++ )
			{
				uint64_t x = 1ULL << i | 1ULL << j;
				MC_DO( m, 1, (long) ( inv ? ~x : x ), d, alt );
			}
		}
	}
	for( long m = 0; m < 8; m++ ) for( long pos = 0; pos < ( m >= 4 ? 128 : 64 ); pos++ ) for( long b = 0; b < 256; b++ ) for( long bg = 0; bg < 3; bg++ ) MC_DO( m, 2, pos, b, bg );
	for( long x = 0; x < 1L << 32; x += 65521 ) MC_DO( 0, 3, x );
	MC_DO( 0, 4 );
}
