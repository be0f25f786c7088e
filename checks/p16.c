/* Rendering of digests.  v = [ size, position, byte, background, destination size - ( 2 * size + 1 ), kind ] */
#include "h.h"
const char *mc_rule( void ) { return ""; }
static int (*f)( const uint8_t *, size_t, char *, size_t, void ** );
enum { LAREA = 1 << 24 }; static uint8_t *lin_end, *lout_end;
static uint8_t *in_end, *out_end;   /* both followed by a page that cannot be touched */
static uint8_t *area( size_t n )
{
	size_t m = ( n + 4095 ) & ~4095UL; uint8_t *p = mmap( NULL, m + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
	if( mprotect( p + 4096, m, PROT_READ | PROT_WRITE ) ) _exit( 2 );
	return p + 4096 + m;
}
void mc_init( void )
{
	f = dlsym( mc_dl, "digest_hash_copy_to_string" );
	if( f == NULL ) { fprintf( stderr, "no digest_hash_copy_to_string\n" ); _exit( 2 ); }
	lin_end = area( LAREA + 4096 ); lout_end = area( 2 * LAREA + 8192 );
	in_end = area( 8192 ); out_end = area( 16384 );
}
/* v = [ size, extra, 0, pattern, 0, 2 ]: large; v = [ size, position, byte, background, next byte, 3 ]: two neighbouring bytes */
static int large( const long *v )
{
	size_t sz = v[ 0 ], i; uint8_t *in = lin_end - sz; char *o = (char *) lout_end - ( 2 * sz + 1 + v[ 1 ] ); void *e = NULL; int r; static const char hex[] = "0123456789abcdef";
	for( i = 0; i < sz; i++ ) in[ i ] = i * 31 + ( i >> 8 ) * 7 + ( i >> 16 ) * 3 + v[ 3 ];
	memset( o, 0x77, 2 * sz + 1 + v[ 1 ] ); if( o > (char *) lout_end - LAREA * 2 + 100 ) memset( o - 100, 0x77, 100 );
	r = f( in, sz, o, 2 * sz + 1 + v[ 1 ], &e );
	if( r != 1 || e != NULL ) { mc_say( "%zu bytes: returned %d", sz, r ); return 1; }
	for( i = 0; i < sz; i++ ) if( o[ 2 * i ] != hex[ in[ i ] >> 4 ] || o[ 2 * i + 1 ] != hex[ in[ i ] & 15 ] ) { mc_say( "byte %zu (%02x) of %zu is rendered as %c%c", i, in[ i ], sz, o[ 2 * i ], o[ 2 * i + 1 ] ); return 1; }
	if( o[ 2 * sz ] != 0 ) { mc_say( "%zu bytes: no end of string", sz ); return 1; }
	for( i = 0; (long) i < v[ 1 ]; i++ ) if( o[ 2 * sz + 1 + i ] != 0x77 ) { mc_say( "writes behind the end of string" ); return 1; }
	return 0;
}
static int pair( const long *v )
{
	static uint8_t in[ 64 ]; static char o[ 160 ]; void *e = NULL; int r; static const char hex[] = "0123456789abcdef"; size_t sz = v[ 0 ];
	for( size_t i = 0; i < sz; i++ ) in[ i ] = v[ 3 ] ? 0xc3 + i * 29 : 0;
	in[ v[ 1 ] ] = v[ 2 ]; in[ v[ 1 ] + 1 ] = v[ 4 ]; memset( o, 0x77, sizeof o );
	r = f( in, sz, o, 2 * sz + 1, &e );
	if( r != 1 || e != NULL ) { mc_say( "%zu bytes: returned %d", sz, r ); return 1; }
	for( size_t i = 0; i < sz; i++ ) if( o[ 2 * i ] != hex[ in[ i ] >> 4 ] || o[ 2 * i + 1 ] != hex[ in[ i ] & 15 ] ) { mc_say( "byte %zu (%02x) of %zu is rendered as %c%c", i, in[ i ], sz, o[ 2 * i ], o[ 2 * i + 1 ] ); return 1; }
	if( o[ 2 * sz ] != 0 || o[ 2 * sz + 1 ] != 0x77 ) { mc_say( "no end of string, or more behind it" ); return 1; }
	return 0;
}
int mc_eval( const long *v, int n )
{
	size_t sz = v[ 0 ], need = 2 * sz + 1, os; uint8_t *in = in_end - sz; char *o; void *e = NULL; int r; static const char hex[] = "0123456789abcdef";
	(void) n; mc_nontrivial++;
	if( v[ 5 ] == 2 ) return large( v );
	if( v[ 5 ] == 3 ) return pair( v );
	if( v[ 5 ] == 1 )   /* sizes and references nobody should touch */
	{
		static const size_t hs[] = { 16, 0, 64, 0x3fffffffffffffffUL, 0x4000000000000000UL, 0x7fffffffffffffffUL, 0x8000000000000000UL, ~0UL, ~0UL - 1, 0xbfffffffffffffffUL }; size_t h = hs[ v[ 1 ] ], s = hs[ v[ 2 ] ];
		const uint8_t *d = v[ 3 ] & 1 ? NULL : in_end - 16; char *t = v[ 3 ] & 2 ? NULL : (char *) out_end - 64; char keep[ 64 ];
		if( d && t && s >= 2 * h + 1 && h < 0x4000000000000000UL && s <= SSIZE_MAX ) { if( h == 0 ) { r = f( d, h, t, s, &e ); mc_err_free( &e ); if( r == 1 && t[ 0 ] != 0 ) { mc_say( "nothing is rendered as \"%.8s\"", t ); return 1; } } return 0; }
		if( d && t && h <= 16 && s >= 2 * h + 1 ) return 0;   /* a needlessly large destination may be refused or not */
		if( d && t && h == 64 && s > 128 ) return 0;
		memset( out_end - 64, 0x77, 64 ); memcpy( keep, out_end - 64, 64 );
		r = f( d, h, t, s, &e );
		if( r != -1 || e == NULL ) { mc_say( "%zu bytes%s into %zu%s returned %d", h, d ? "" : " (missing)", s, t ? "" : " (missing)", r ); return 1; }
		mc_err_free( &e );
		if( memcmp( out_end - 64, keep, 64 ) ) { mc_say( "refused, but the destination was written to" ); return 1; }
		return 0;
	}
	os = need + v[ 4 ];
	if( (long) os < 0 ) return 0;
	for( size_t i = 0; i < sz; i++ ) in[ i ] = v[ 3 ] == 0 ? 0 : v[ 3 ] == 1 ? 0xff : mc_pat( 4, i );
	if( sz ) in[ v[ 1 ] ] = v[ 2 ];
	o = (char *) out_end - os;
	memset( out_end - 8192, 0x77, 8192 );
	r = f( in, sz, o, os, &e );
	for( size_t i = 0; i < sz; i++ ) if( in[ i ] != ( (long) i == v[ 1 ] ? (uint8_t) v[ 2 ] : v[ 3 ] == 0 ? 0 : v[ 3 ] == 1 ? 0xff : mc_pat( 4, i ) ) ) { mc_say( "the digest was changed" ); return 1; }
	for( char *p = (char *) out_end - 8192; p < o; p++ ) if( *p != 0x77 ) { mc_say( "writes before the destination" ); return 1; }
	if( v[ 4 ] < 0 )
	{
		if( r != -1 || e == NULL ) { mc_say( "%zu bytes into %zu characters returned %d", sz, os, r ); return 1; }
		mc_err_free( &e );
		for( size_t i = 0; i < os; i++ ) if( o[ i ] != 0x77 ) { mc_say( "refused, but the destination was written to" ); return 1; }
		return 0;
	}
	if( r != 1 || e != NULL ) { mc_say( "%zu bytes into %zu characters returned %d", sz, os, r ); return 1; }
	for( size_t i = 0; i < sz; i++ ) if( o[ 2 * i ] != hex[ in[ i ] >> 4 ] || o[ 2 * i + 1 ] != hex[ in[ i ] & 15 ] ) { mc_say( "byte %zu (%02x) of %zu is rendered as %c%c", i, in[ i ], sz, o[ 2 * i ], o[ 2 * i + 1 ] ); return 1; }
	if( o[ 2 * sz ] != 0 ) { mc_say( "no end of string" ); return 1; }
	for( size_t i = need; i < os; i++ ) if( o[ i ] != 0x77 ) { mc_say( "writes behind the end of string" ); return 1; }
	return 0;
}
void mc_enumerate( void )
{
	static const long sizes[] = { 1, 2, 3, 4, 8, 15, 16, 17, 20, 28, 31, 32, 33, 48, 64, 65, 127, 128, 256 };
	for( unsigned s = 0; s < sizeof sizes / sizeof sizes[ 0 ]; s++ ) for( long p = 0; p < sizes[ s ]; p++ ) for( long b = 0; b < 256; b++ ) for( long bg = 0; bg < 3; bg++ ) for( long x = 0; x < 3; x++ ) MC_DO( sizes[ s ], p, b, bg, x, 0 );
	for( long s = 0; s <= ( mc_thorough ? 2000 : 300 ); s++ ) for( long x = -2 * s - 1; x <= 4; x++ ) MC_DO( s, 0, 0xa5, 2, x, 0 );
	for( long s = 1; s < 3000; s++ ) for( long x = 0; x < 3; x++ ) MC_DO( s, x, 0, s & 1, 0, 2 );
	for( long k = 12; k <= 24; k++ ) for( long x = -2; x <= 2; x++ ) MC_DO( ( 1L << k ) + x, x + 2, 0, 5, 0, 2 );
	for( unsigned s = 0; s < 6; s++ )
	{
		static const long dl[] = { 64, 32, 28, 20, 16, 2 };
		for( long p = 0; p < dl[ s ] - 1; p += mc_thorough || s > 0 ? 1 : 3 ) for( long b = 0; b < 256; b++ ) for( long c = 0; c < 256; c++ ) MC_DO( dl[ s ], p, b, 1, c, 3 );
	}
	for( long a = 0; a < 10; a++ ) for( long b = 0; b < 10; b++ ) for( long q = 0; q < 4; q++ ) MC_DO( 0, a, b, q, 0, 1 );
}
