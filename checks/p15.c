/* Human readable sizes.
 * v = [ 0, decimal point, fail, character... ]   reading
 * v = [ 1, decimal point, units, buffer size, lower and upper half of the size ]   writing
 * v = [ 2, character... ]   the -p option of the tool
 * v = [ 3, kind, count, unit ]   reading a long text */
#include "tool.h"
const char *mc_rule( void ) { return ""; }
#if defined( __SIZEOF_INT128__ )
typedef unsigned __int128 u128;
#else
typedef unsigned _BitInt( 128 ) u128;
#endif
static int (*conv)( const char *, size_t, uint64_t *, void ** ); static int (*crea)( char *, size_t, uint64_t, int, void ** );
static char *pg;   /* followed by a page that cannot be touched */
static int popt;
void mc_init( void )
{
	enum { Z = 35 * 4096 }; uint8_t *p = mmap( NULL, Z + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
	mprotect( p + 4096, Z, PROT_READ | PROT_WRITE ); pg = (char *) p + 4096 + Z;
	tool_init();
	conv = dlsym( mc_dl, "byte_size_string_convert" ); crea = dlsym( mc_dl, "byte_size_string_create" );
	if( !conv || !crea ) { fprintf( stderr, "no conversion functions\n" ); _exit( 2 ); }
}
#define LIM ( (u128) 1 << 64 )
/* the meaning of a string: 0 nothing said, 1 must be the value, 2 may be the value or refused, 3 must be refused */
static int meaning( const char *s, int point, uint64_t *val )
{
	u128 n = 0, unit; int f = 0, frac = 0, nf = 0, some = 0, sfx = 0; const char *q;
	while( *s >= '0' && *s <= '9' ) { some = 1; n = n * 10 + ( *s++ - '0' ); if( n > LIM ) n = LIM; }
	if( *s == point ) { s++; while( *s >= '0' && *s <= '9' ) { if( nf < 2 ) frac = frac * 10 + ( *s - '0' ); nf++; s++; } if( nf == 1 ) frac *= 10; some |= nf ? 2 : 0; }
	if( *s == ' ' ) s++;
	if( *s && ( q = strchr( "kKmMgGtTpPeEzZyY", *s ) ) ) { f = ( q - "kKmMgGtTpPeEzZyY" ) / 2 + 1; s++; }
	unit = 1024;
	if( *s == 'B' ) { unit = 1000; s++; sfx = 1; } else if( s[ 0 ] == 'i' && s[ 1 ] == 'B' ) { s += 2; sfx = 1; }
	else if( *s ) return 3;
	if( f > 0 && frac > 0 ) { n = n * unit + frac * 10; if( n > LIM ) n = LIM; f--; }
	for( ; f > 0; f-- ) { n *= unit; if( n > LIM ) n = LIM; }
	if( n >= LIM ) return 3;
	*val = n;
	if( !( some & 1 ) ) return 2;      /* no digits before the point */
	return *s && sfx ? 2 : 1;          /* something follows the unit */
}
static int text( char *s, int n, int point );
static int rd_( const long *v, int n )
{
	char *s = pg - ( n - 3 ) - 1;
	for( int i = 3; i < n; i++ ) s[ i - 3 ] = v[ i ];
	s[ n - 3 ] = 0;
	return text( s, n - 3, v[ 1 ] );
}
static const char *const unit_[] = { "", "K", "kB", "MiB", " G", "ZiB", "X", "KK" };
static int rdlong( const long *v )
{
	static char b[ 140000 ]; char *p = b, *s; long c = v[ 2 ]; int n;
	switch( v[ 1 ] )
	{
		case 0: memset( p, '0', c ); p += c; p += sprintf( p, "12" ); break;
		case 1: memset( p, '0', c ); p += c; p += sprintf( p, "3.25" ); break;
		case 2: p += sprintf( p, "1.05" ); memset( p, '7', c ); p += c; break;
		case 3: p += sprintf( p, "2." ); memset( p, '0', c ); p += c; p += sprintf( p, "5" ); break;
		case 4: p += sprintf( p, "2." ); memset( p, '9', c ); p += c; break;
		case 5: p += sprintf( p, "7" ); memset( p, ' ', c ); p += c; break;
		case 6: memset( p, ' ', c ); p += c; p += sprintf( p, "7" ); break;
		default: p += sprintf( p, "1" ); memset( p, '0', c ); p += c; break;
	}
	p += sprintf( p, "%s", unit_[ v[ 3 ] ] ); n = p - b; s = pg - n - 1; memcpy( s, b, n + 1 );
	return text( s, n, '.' );
}
static int text( char *s, int n, int point )
{
	uint64_t val = 0x1234567, want = 0; void *e = NULL; int r, m;
	tool_reset(); T.decimal = point; T.running = 0;
	r = conv( s, n, &val, &e );
	m = meaning( s, point, &want ); mc_nontrivial++;
	if( ( r != 1 ) != ( e != NULL ) && r != 0 ) { mc_say( "'%.200s': returns %d with%s error", s, r, e ? " an" : "out an" ); return 1; }
	mc_err_free( &e );
	if( r == 1 && m == 3 ) { mc_say( "'%.200s' is read as %llu", s, (unsigned long long) val ); return 1; }
	if( r == 1 && val != want ) { mc_say( "'%.200s' is read as %llu, not %llu", s, (unsigned long long) val, (unsigned long long) want ); return 1; }
	if( r != 1 && m == 1 ) { mc_say( "'%.200s' (%llu) is refused", s, (unsigned long long) want ); return 1; }
	return 0;
}
static int failpoint( int k, long i ) { (void) i; return k == EV_POINT; }
static int wr( const long *v )
{
	uint64_t z = (uint32_t) v[ 4 ] | (uint64_t) (uint32_t) v[ 5 ] << 32, t = z; int u = v[ 2 ], k = 0, r; size_t bs = v[ 3 ]; char want[ 64 ], *o = pg - bs; void *e = NULL; uint64_t p = 1;
	static const char *pre[] = { "", "K", "M", "G", "T", "P", "E", "Z", "Y" };
	mc_nontrivial++;
	while( t >= (uint64_t) u ) { t /= u; k++; if( k > 1 ) p *= u; }
	if( k && t < 10 ) { unsigned d = ( z / p % u ) / 100; snprintf( want, sizeof want, "%llu%c%u %s%s", (unsigned long long) t, (int) v[ 1 ], d > 9 ? 9 : d, pre[ k ], z < 1024 || u == 1000 ? "B" : "iB" ); }
	else snprintf( want, sizeof want, "%llu %s%s", (unsigned long long) t, pre[ k ], z < 1024 || u == 1000 ? "B" : "iB" );
	memset( pg - 4096, 0x77, 4096 );
	tool_reset(); T.decimal = v[ 1 ]; T.running = 0;
	r = crea( o, bs, z, u, &e );
	for( char *q = pg - 4096; q < o; q++ ) if( *q != 0x77 ) { mc_say( "writes before the buffer" ); return 1; }
	if( ( r != 1 ) != ( e != NULL ) ) { mc_say( "%llu: returns %d with%s error", (unsigned long long) z, r, e ? " an" : "out an" ); return 1; }
	mc_err_free( &e );
	if( r != 1 ) { if( bs > 16 ) { mc_say( "%llu is refused with a buffer of %zu", (unsigned long long) z, bs ); return 1; } if( bs >= strlen( want ) + 1 && bs >= 9 ) { mc_say( "%llu (%s) is refused with a buffer of %zu", (unsigned long long) z, want, bs ); return 1; } return 0; }
	if( bs < strlen( want ) + 1 || strcmp( o, want ) ) { mc_say( "%llu in units of %d is written as \"%.*s\", not \"%s\" (buffer of %zu)", (unsigned long long) z, u, (int) bs, o, want, bs ); return 1; }
	return 0;
}
/* what buffer the tool uses: how much it asks for at once */
static uint64_t asked;
static long ask( size_t k, uint64_t at ) { (void) at; (void) k; return -1; }
static int opt( const long *v, int n )
{
	char s[ 64 ]; char *av[] = { "hmacsum", "-p", s, "data", NULL }; int m; uint64_t want = 0; static uint8_t d[ 70000 ];
	for( int i = 1; i < n && i < 60; i++ ) s[ i - 1 ] = v[ i ];
	s[ n - 1 ] = 0;
	tool_reset(); T.data = d; T.size = 1 << 20; T.avail = 0; T.exists = "data"; T.stdin_open = 1; T.read = ask; T.alloc_max = 1 << 25;
	tool_run( 4, av ); m = meaning( s, '.', &want ); mc_nontrivial++; (void) asked;
	if( T.bad ) { mc_say( "-p '%s': %s", s, T.bad ); return 1; }
	if( T.status == 0 ) { mc_say( "-p '%s': succeeds without reading", s ); return 1; }
	if( T.reads == 0 ) { if( m == 1 && want > 0 && want <= 1 << 24 ) { mc_say( "-p '%s' (%llu) is not usable: %.100s", s, (unsigned long long) want, T.err ); return 1; } return 0; }
	if( m == 3 && T.big_read != 32768 ) { mc_say( "-p '%s' reads with a buffer of %zu", s, T.big_read ); return 1; }
	if( m != 3 && T.big_read != ( want < 1 << 20 ? want : 1 << 20 ) && !( want > SSIZE_MAX || want == 0 || m == 2 ? T.big_read == 32768 : 0 ) ) { mc_say( "-p '%s' (%llu) reads with a buffer of %zu", s, (unsigned long long) want, T.big_read ); return 1; }
	return 0;
}
int mc_eval( const long *v, int n )
{
	if( v[ 0 ] == 0 )
	{
		if( v[ 2 ] )
		{
			uint64_t val; void *e = NULL; int r;
			tool_reset(); T.fail = failpoint; T.running = 1; r = conv( "12", 2, &val, &e ); T.running = 0;
			if( T.failed && r != -1 ) { mc_say( "the decimal point is not known, but 12 is read" ); return 1; }
			mc_err_free( &e ); return 0;
		}
		return rd_( v, n );
	}
	if( v[ 0 ] == 1 ) return wr( v );
	if( v[ 0 ] == 3 ) return rdlong( v );
	return opt( v, n );
}
static void str( int kind, int point, const char *s )
{
	long v[ 128 ] = { kind, point, 0 }; int n = kind == 0 ? 3 : 1;
	for( ; *s; s++ ) v[ n++ ] = (unsigned char) *s;
	mc_do( v, n );
}
#define H( x ) (long) (uint32_t) ( x ), (long) (uint32_t) ( (uint64_t) ( x ) >> 32 )
static void both( const char *s ) { str( 0, '.', s ); if( strlen( s ) < 60 ) str( 2, 0, s ); }
static void dec( u128 x, char *b ) { char t[ 50 ]; int n = 0; do t[ n++ ] = '0' + (int) ( x % 10 ); while( ( x /= 10 ) ); while( n ) *b++ = t[ --n ]; *b = 0; }
void mc_enumerate( void )
{
	static const char al[] = "019.KmiB x", al2[] = "05.,GykbBi \x80"; static const char *pre = "kKmMgGtTpPeEzZyY", *sfx[] = { "", "B", "iB", "b", "i", "ib", "IB", "Bi", "iBx", "B ", "KB", "iB\n" };
	static const char *fr[] = { "", ".", ".0", ".1", ".01", ".09", ".10", ".5", ".50", ".99", ".999", ".000", ".005", ".55", ".9", ".123456" };
	int T_ = mc_thorough; char s[ 128 ], nb[ 64 ];
	long v0[] = { 0, '.', 1 }; mc_do( v0, 3 );
	for( int a = 0; a < 2; a++ )
	{
		const char *A = a ? al2 : al; int na = strlen( A );
		for( int l = 0; l <= ( T_ ? 7 : 6 ) - a; l++ )
		{
			long t = 1; for( int i = 0; i < l; i++ ) t *= na;
			for( long x = 0; x < t; x++ ) { long y = x; for( int i = 0; i < l; i++, y /= na ) s[ i ] = A[ y % na ]; s[ l ] = 0; str( 0, '.', s ); if( a ) str( 0, ',', s ); if( l <= 4 ) str( 2, 0, s ); }
		}
	}
	/* around the 64-bit limit for every prefix, unit and fraction */
	for( int p = 0; p <= 16; p++ ) for( unsigned x = 0; x < sizeof sfx / sizeof sfx[ 0 ]; x++ )
	{
		int f = p ? ( p - 1 ) / 2 + 1 : 0; u128 unit = !strcmp( sfx[ x ], "B" ) ? 1000 : 1024, q = LIM; char P[ 2 ] = { p ? pre[ p - 1 ] : 0, 0 };
		for( int i = 0; i < f; i++ ) q /= unit;
		for( unsigned r = 0; r < sizeof fr / sizeof fr[ 0 ]; r++ ) for( int sp = 0; sp < 3; sp++ )
		{
			u128 c[] = { 0, 1, 2, 9, 10, 64, 99, 100, 512, 999, 1000, 1023, 1024, 32768, q / 2 - 1, q / 2, q / 2 + 1, q - 2, q - 1, q, q + 1, q + 2, q * 2, q * 10, LIM / 10, LIM / 10 + 1, LIM, LIM + 1, LIM * 10, (u128) 1 << 63, ( (u128) 1 << 63 ) - 1, ( (u128) 1 << 63 ) + 1, (u128) 1 << 32, ( (u128) 1 << 32 ) - 1 };
			for( unsigned i = 0; i < sizeof c / sizeof c[ 0 ]; i++ )
			{
				if( i >= 14 && i <= 23 && q < 4 && i != 19 ) continue;
				dec( c[ i ], nb ); sprintf( s, "%s%s%s%s%s", nb, fr[ r ], sp == 0 ? "" : sp == 1 ? " " : "  ", P, sfx[ x ] ); both( s );
			}
		}
	}
	/* long digit strings */
	for( int n = 1; n <= 60; n++ ) for( int d = 0; d < 10; d++ ) for( int z = 0; z < 3; z++ ) { int i; for( i = 0; i < n; i++ ) s[ i ] = z == 0 ? '0' + d : z == 1 ? ( i == 0 ? '0' + d : '0' ) : ( i < n - 3 ? '0' : '0' + d ); s[ n ] = 0; both( s ); strcat( s, "K" ); both( s ); }
	for( uint64_t k = 0; k < 2000; k++ ) { dec( LIM - 1000 + k, s ); both( s ); dec( LIM * 10 - 1000 + k, s ); both( s ); }
	for( long k = 0; k < ( T_ ? 2000000 : 100000 ); k++ ) { sprintf( s, "%ld", k ); str( 0, '.', s ); if( k % 10 == 3 || k < 20000 ) str( 2, 0, s ); }
	/* writing */
	for( int u = 1000; u <= 1024; u += 24 ) for( int pt = 0; pt < 2; pt++ )
	{
		uint64_t p = 1;
		for( int k = 0; k < 7; k++ )
		{
			for( uint64_t m = 1; m <= 1100; m++ ) for( int d = -3; d <= 3; d++ )
			{
				if( p > UINT64_MAX / m ) break;
				for( int b = 17; b <= 20; b += 3 ) MC_DO( 1, pt ? ',' : '.', u, b, H( p * m + d ) );
				MC_DO( 1, pt ? ',' : '.', u, 9, H( p * m + d ) ); 
			}
			/* every tenth below ten */
			for( uint64_t m = 0; m < 11; m++ ) for( uint64_t h = 0; h < (uint64_t) u + 30; h++ ) if( k && p / u * h / u <= UINT64_MAX - p * m && p <= UINT64_MAX / 11 ) for( int d = -1; d <= 1; d++ ) MC_DO( 1, pt ? ',' : '.', u, 9, H( p * m + p / u * h + d ) );
			if( p > UINT64_MAX / u ) break;
			p *= u;
		}
		for( int b = 0; b <= 24; b++ ) for( int i = 0; i < 64; i++ ) for( int d = -2; d <= 2; d++ ) MC_DO( 1, pt ? ',' : '.', u, b, H( ( 1ULL << i ) + d ) );
		for( long z = 0; z < ( T_ ? 1100000 : 120000 ); z++ ) MC_DO( 1, pt ? ',' : '.', u, 9, H( z ) );
		for( long z = 0; z < 3000; z++ ) MC_DO( 1, pt ? ',' : '.', u, 9, H( -z ) );
	}
	/* characters beyond the bytes in the place of each character, and added */
	if( tool_wide() )
	{
		static const char *base[] = { "", "1", "12", "12K", "3kB", "2.5MiB", "7 GiB", "90.25 T" };
		for( unsigned i = 0; i < sizeof base / sizeof base[ 0 ]; i++ ) for( int pos = 0, l = strlen( base[ i ] ); pos <= l; pos++ ) for( int how = 0; how < 2; how++ ) for( unsigned c = 0x100; c < 0x10000; c++ )
		{
			int n = pos;
			if( how == 0 && pos == l ) break;
			memcpy( s, base[ i ], pos ); n += tool_wchar( c, s + n ); strcpy( s + n, base[ i ] + pos + !how );
			str( 0, '.', s ); if( T_ || ( how == 0 && ( c & 0xff ) == (unsigned char) base[ i ][ pos ] ) || ( how == 1 && ( c & 0xff ) == 0 ) ) str( 2, 0, s );
		}
	}
	for( int k = 0; k < 8; k++ ) for( int u = 0; u < 8; u++ )
	{
		static const int at[] = { 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537 };
		for( int c = 0; c <= ( T_ ? 2000 : 300 ); c++ ) MC_DO( 3, k, c, u );
		for( unsigned j = 0; j < sizeof at / sizeof at[ 0 ]; j++ ) for( int d = T_ ? -9 : -1; d <= 0; d++ ) MC_DO( 3, k, at[ j ] + d, u );
	}
}
