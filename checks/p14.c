/* The digest type option.  v = the bytes of the option's argument (without its end of string), or for a long one
 * v = [ -1, name, kind, count ] */
#include "tool.h"
const char *mc_rule( void ) { return ""; }
static char str[ 1400 ];
static int run( const char *s )
{
	char *av[] = { "hmacsum", "-d", (char *) s, "data", NULL }; tout_t o; const char *w; int m = tool_mask_of( s );
	tool_reset(); T.data = (const uint8_t *) "abc"; T.size = T.avail = 3; T.exists = "data"; T.stdin_open = 1;
	tool_run( 4, av ); tool_parse( &o );
	if( m != 1 ) mc_nontrivial++;
	if( T.bad ) { mc_say( "-d '%.60s': %s", s, T.bad ); return 1; }
	if( T.status != 0 || T.ended == 2 ) { mc_say( "-d '%.60s' fails: %.200s", s, T.err ); return 1; }
	w = tool_exact( &o, m );
	if( w ) { mc_say( "-d '%.60s': %s", s, w ); return 1; }
	return 0;
}
static const char *name_of( int i );
static char *put( char *p, const char *w ) { size_t n = strlen( w ); memcpy( p, w, n ); p[ n ] = 0; return p + n; }
static int longer( const long *v )
{
	static char b[ 1 << 20 ]; char *p = b; const char *w = name_of( v[ 1 ] ), *last = w + strlen( w ) - 1; char x[ 2 ] = { 'x', 0 }; b[ 0 ] = 0;
	switch( v[ 2 ] )
	{
		case 0: for( long i = 0; i < v[ 3 ]; i++ ) { p = put( p, w ); *p++ = ','; } p[ -1 ] = 0; break;        /* again and again */
		case 1: case 2: p = put( p, w ); if( v[ 2 ] == 2 ) x[ 0 ] = *last; for( long i = 0; i < v[ 3 ]; i++ ) p = put( p, x ); break;   /* a long word starting with it */
		case 3: for( long i = 0; i < v[ 3 ]; i++ ) p = put( p, x ); p = put( p, w ); break;                    /* a long word ending with it */
		case 4: p = put( p, w ); *p++ = ','; for( long i = 0; i < v[ 3 ]; i++ ) { *p++ = ','; } p = put( p, "sha512" ); break;          /* many empty names between */
		case 5: for( long i = 0; i < v[ 3 ]; i++ ) p = put( p, x ); *p++ = ','; p = put( p, w ); break;         /* behind a long word */
		case 6: for( long i = 0; i < v[ 3 ]; i++ ) p = put( p, i & 1 ? "MD5," : "none," ); p = put( p, w ); break;
		default: for( long i = 0; i < v[ 3 ]; i++ ) { p = put( p, name_of( i % 26 ) ); *p++ = ','; } p = put( p, w ); break;
	}
	return run( b );
}
int mc_eval( const long *v, int n )
{
	if( n == 4 && v[ 0 ] == -1 ) return longer( v );
	for( int i = 0; i < n; i++ ) str[ i ] = v[ i ];
	str[ n ] = 0;
	return run( str );
}
static void try_( const char *s )
{
	long v[ 1400 ]; int n = strlen( s );
	for( int i = 0; i < n; i++ ) v[ i ] = (unsigned char) s[ i ];
	mc_do( v, n );
}
static char names[ 32 ][ 10 ]; static int nn;
static const char *name_of( int i ) { return names[ i % nn ]; }
static const char *near_[] = { "", " md5", "md5 ", "Md5", "mD5", "MD-5", "md-5", "md_5", "md", "md55", "5", "sha", "SHA", "Sha1", "SHa1", "sHA1", "sha11", "sha2", "sha-", "sha--1", "sha-_1", "sha1 ", " sha1", "sha-1 ",
	"sha22", "sha2244", "sha-2244", "sha-22", "Sha256", "sha384", "SHA-384", "sha_256 ", "sha-51", "sha512x", "SHA-512/256", "sha.1", "sha+224", "all", "none", "-", "_", "1", "shA512", "SHA-5l2", "md5;sha1", "\xff", "sha\xb1" };
enum { NNEAR = sizeof near_ / sizeof near_[ 0 ] };
void mc_init( void )
{
	static const char *num[] = { "1", "224", "256", "512" };
	tool_init(); tool_digests( (const uint8_t *) "abc", 3 );
	for( int up = 0; up < 2; up++ ) { strcpy( names[ nn++ ], up ? "MD5" : "md5" ); for( int k = 0; k < 4; k++ ) for( int s = 0; s < 3; s++ ) sprintf( names[ nn++ ], "%s%s%s", up ? "SHA" : "sha", s == 0 ? "" : s == 1 ? "-" : "_", num[ k ] ); }
}
static const char *word( int i ) { return i < nn ? names[ i ] : near_[ i - nn ]; }
static void strings( const char *al, int len )
{
	char s[ 16 ]; int na = strlen( al ); long t = 1;
	for( int i = 0; i < len; i++ ) t *= na;
	for( long x = 0; x < t; x++ ) { long y = x; for( int i = 0; i < len; i++, y /= na ) s[ i ] = al[ y % na ]; s[ len ] = 0; try_( s ); }
}
void mc_enumerate( void )
{
	int W = nn + NNEAR, T_ = mc_thorough; char s[ 1400 ];
	for( int i = 0; i < W; i++ ) { try_( word( i ) ); for( int j = 0; j < W; j++ ) { sprintf( s, "%s,%s", word( i ), word( j ) ); try_( s );
		for( int k = 0; k < W; k++ ) { sprintf( s, "%s,%s,%s", word( i ), word( j ), word( k ) ); try_( s ); } } }
	/* every name changed in one place */
	for( int i = 0; i < nn; i++ )
	{
		int l = strlen( names[ i ] );
		for( int form = 0; form < 4; form++ ) for( int pos = 0; pos <= l; pos++ ) for( int how = 0; how < 3; how++ ) for( int c = 1; c < 256; c++ )
		{
			char w[ 16 ]; int n = 0;
			if( how == 0 && c > 1 ) break;                                /* leave a character out, replace it, add one */
			if( how < 2 && pos == l ) break;
			for( int q = 0; q <= l; q++ ) { if( q == pos && how == 1 ) { w[ n++ ] = c; continue; } if( q == pos && how == 2 ) w[ n++ ] = c; if( q == pos && how == 0 ) continue; if( q < l ) w[ n++ ] = names[ i ][ q ]; }
			w[ n ] = 0;
			sprintf( s, form == 0 ? "%s" : form == 1 ? "sha-256,%s" : form == 2 ? "%s,SHA_1" : "sha512,%s,md5", w ); try_( s );
		}
	}
	for( int l = 0; l <= ( T_ ? 6 : 5 ); l++ ) strings( "md5sha1-_,MS", l );
	for( int l = 0; l <= ( T_ ? 8 : 7 ); l++ ) strings( "sha1,", l );
	/* all subsets in every order, long lists */
	for( int a = 0; a < 5; a++ ) for( int b = 0; b < 5; b++ ) for( int c = 0; c < 5; c++ ) for( int d = 0; d < 5; d++ ) for( int e = 0; e < 5; e++ ) for( int f = 0; f < ( T_ ? 6 : 2 ); f++ )
	{
		static const char *sp[ 6 ][ 5 ] = { { "md5", "sha1", "sha224", "sha256", "sha512" }, { "MD5", "SHA-1", "sha_224", "SHA256", "sha-512" }, { "x", "sha_1", "SHA-224", "sha-256", "SHA_512" }, { "", "SHA_1", "SHA_224", "SHA_256", "SHA-512" }, { "md5", "sha-1", "sha-224", "SHA-256", "sha_512" }, { "MD5", "SHA1", "SHA224", "sha_256", "SHA512" } };
		sprintf( s, "%s,%s,%s,%s,%s", sp[ f ][ a ], sp[ f ][ b ], sp[ f ][ c ], sp[ f ][ d ], sp[ f ][ e ] ); try_( s );
	}
	for( int n = 1; n <= 140; n++ ) for( int k = 0; k < 4; k++ ) { int o = 0; for( int i = 0; i < n; i++ ) o += sprintf( s + o, "%s,", k == 0 ? "sha1" : k == 1 ? "zzzzz" : k == 2 ? "" : i == n - 1 ? "sha512" : "abcdefg" ); s[ o - 1 ] = 0; try_( s ); }
	/* characters beyond the bytes, in the place of each character of each name, added, and as a separator */
	if( tool_wide() ) for( int i = 0; i < nn; i++ )
	{
		int l = strlen( names[ i ] ); char w[ 24 ], u[ 64 ];
		for( int pos = 0; pos <= l; pos++ ) for( int how = 1; how < 3; how++ ) for( unsigned c = 0x100; c < 0x10000; c++ )
		{
			unsigned lo = c & 0xff, hi = c >> 8; int n = 0;
			if( how == 1 && pos == l ) break;
			if( !T_ && lo != (unsigned char) names[ i ][ pos ] && lo != ( (unsigned char) names[ i ][ pos ] ^ 0x20 ) && lo != 0 && lo != ',' && !( hi == 0xff && lo < 0x60 ) && hi != 1 ) continue;
			for( int q = 0; q <= l; q++ ) { if( q == pos ) n += tool_wchar( c, w + n ); if( q < l && !( q == pos && how == 1 ) ) w[ n++ ] = names[ i ][ q ]; }
			w[ n ] = 0; try_( w ); sprintf( u, "sha-256,%s", w ); try_( u );
		}
		for( unsigned c = 0x100; c < 0x10000; c++ ) if( T_ || ( c & 0xff ) == ',' || c < 0x300 || i < 2 ) { int n = sprintf( u, "%s", names[ i ] ); n += tool_wchar( c, u + n ); strcpy( u + n, names[ ( i * 7 + 3 ) % nn ] ); try_( u ); }
	}
	/* long lists and words */
	for( int i = 0; i < nn; i++ ) for( int k = 0; k < 8; k++ )
	{
		static const int at[] = { 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32766, 32767, 32768, 32769, 65530, 65534, 65535, 65536, 65537 };
		int o = nn / 2;
		for( int c = 1; c <= ( T_ ? 1100 : 300 ); c++ ) MC_DO( -1, i, k, c );
		for( unsigned j = 0; j < sizeof at / sizeof at[ 0 ]; j++ ) if( j < 7 || T_ || i % o < 2 || i == nn - 1 ) MC_DO( -1, i, k, at[ j ] );
		if( i % o < 2 ) for( int d = k == 0 || k >= 6 ? -1 : -24; d <= ( k == 0 || k >= 6 ? 1 : 6 ); d++ ) { MC_DO( -1, i, k, 65536 + d ); MC_DO( -1, i, k, 131072 / ( k == 6 || k == 7 ? 2 : 1 ) + d ); }
	}
}
