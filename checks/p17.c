/* The bundled option parser against POSIX getopt (the C library's, told not to permute).
 * v = [ options string, argument... ]  an argument is a number >= 0: word, or < 0: characters coded base 16
 * v = [ -1 - options string, kind, count ]  long command lines */
#include "tool.h"
#include <ctype.h>
const char *mc_rule( void ) { return ""; }
static int (*own)( int, char *const *, const char * ); static int *o_ind, *o_opt; static char **o_arg;
static const char *const ostr[] = { "d:hp:vV", ":d:hp:vV", "ab:c", ":ab:c", "a", ":", "", "a:", "x:y:z:", "hH", "hd:", "dhvV" };
enum { NOSTR = sizeof ostr / sizeof ostr[ 0 ], MAXA = 6, GUARD = 8192 };
static const char *const word[] = { "-h", "-d", "-", "--", "", "x", "-x", "-vx", "-vd", "-d-", "-hv", "-:", "-?", "--foo", "-dh", "-a", "-vdx", "-v-h", "-b", "-xh", "---", "-d:", "h", "-V-", "-c", "-\xff", ":", "-x:h", "-pval", "--d", "-\x01v", "-d\x80" };
enum { NWORD = sizeof word / sizeof word[ 0 ] };
static const char chr[] = "-dhx:va?b\x80 pV=.";          /* 15 characters, 0 ends */
static char *slot[ MAXA + 2 ], *vec;                          /* each ends at a page that cannot be touched */
static char *page( void ) { char *p = mmap( NULL, GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); if( mprotect( p, 4096, PROT_READ | PROT_WRITE ) ) _exit( 2 ); return p + 4096; }
void mc_init( void )
{
	tool_init(); own = dlsym( mc_dl, "hmactools_getopt" ); o_ind = dlsym( mc_dl, "optind" ); o_opt = dlsym( mc_dl, "optopt" ); o_arg = dlsym( mc_dl, "optarg" );
	if( !own || !o_ind || !o_opt || !o_arg ) { fprintf( stderr, "no bundled option parser\n" ); _exit( 2 ); }
	if( o_ind == &optind ) { fprintf( stderr, "the parsers share their state\n" ); _exit( 2 ); }
	for( int i = 0; i < MAXA + 2; i++ ) slot[ i ] = page();
	{
		size_t z = 8 * 80000 / 4096 * 4096 + 4096;
		vec = mmap( NULL, z + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); if( mprotect( vec, z, PROT_READ | PROT_WRITE ) ) _exit( 2 ); vec += z;
	}
}
static int build( const long *v, int n, char **av )
{
	int argc = n, i; char b[ 32 ];
	for( i = 0; i < argc; i++ )
	{
		const char *s; int l = 0;
		if( i == 0 ) s = "hmacsum";
		else if( v[ i ] >= 0 ) s = word[ v[ i ] ];
		else { unsigned long x = -v[ i ]; while( x & 15 ) { b[ l++ ] = chr[ ( x & 15 ) - 1 ]; x >>= 4; } b[ l ] = 0; s = b; }
		av[ i ] = slot[ i ] - strlen( s ) - 1; strcpy( av[ i ], s );
	}
	av[ argc ] = NULL;
	return argc;
}
static const char *q( int c ) { static char b[ 4 ][ 8 ]; static int k; k = ( k + 1 ) & 3; snprintf( b[ k ], 8, c > 32 && c < 127 ? "'%c'" : "%d", c ); return b[ k ]; }
static int follow( const char *o, int argc, char **av, char **cp, char **keep );
enum { LONGA = 70000 };
static int longer( const long *v )
{
	static char *av[ LONGA + 8 ], *cp[ LONGA + 8 ], *kp[ LONGA + 8 ], *big, *copy; const char *o = ostr[ -1 - v[ 0 ] ]; long c = v[ 2 ]; int n = 0; char with = 'd', flag = 'v';
	/* a letter with and one without an argument */
	for( const char *q = o; *q; q++ ) if( isalpha( (unsigned char) *q ) ) { if( q[ 1 ] == ':' ) with = *q; else flag = *q; }
	if( big == NULL )
	{
		size_t z = 4096 * ( ( LONGA + 64 ) / 4096 + 2 );
		big = mmap( NULL, z + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); mprotect( big, z, PROT_READ | PROT_WRITE ); big += z;
		copy = malloc( LONGA + 64 );
	}
	char f[] = { '-', flag, 0 }, w[] = { '-', with, 0 }, *b;
	av[ n++ ] = "hmacsum";
	switch( v[ 1 ] )
	{
		case 0: for( long i = 0; i < c; i++ ) av[ n++ ] = f; av[ n++ ] = "x"; av[ n++ ] = "-v"; break;
		case 1: av[ n++ ] = f; for( long i = 0; i < c; i++ ) av[ n++ ] = "x"; break;
		case 2: for( long i = 0; i < c / 2; i++ ) { av[ n++ ] = w; av[ n++ ] = i & 1 ? "-v" : "y"; } av[ n++ ] = "x"; break;
		case 3: av[ n++ ] = "--"; for( long i = 0; i < c; i++ ) av[ n++ ] = f; break;
		case 4: for( long i = 0; i < c; i++ ) av[ n++ ] = i % 3 == 0 ? f : i % 3 == 1 ? "-x" : "-vd-"; av[ n++ ] = w; break;
		case 5: case 6: case 7:    /* a group of c letters, ending with a letter that takes an argument */
			b = big - c - 3 - ( v[ 1 ] == 7 ); b[ 0 ] = '-'; memset( b + 1, v[ 1 ] == 5 ? flag : v[ 1 ] == 6 ? 'x' : flag, c ); b[ c + 1 ] = with; if( v[ 1 ] == 7 ) b[ c + 2 ] = '-';
			b[ c + 2 + ( v[ 1 ] == 7 ) ] = 0; av[ n++ ] = b; av[ n++ ] = "-v"; av[ n++ ] = "x"; break;
		case 8: b = big - c - 3; b[ 0 ] = '-'; b[ 1 ] = with; memset( b + 2, 'a', c ); b[ c + 2 ] = 0; av[ n++ ] = b; av[ n++ ] = f; break;  /* a long argument */
		case 10: case 11: case 12: case 13: case 14: case 15: case 16: case 17:    /* a character beyond the bytes, where no option is looked for */
		{
			static const char *const form[] = { "\1", "\1h", "\1", "-?\1", "x\1", "-?\1-\1", "\1\1", "a\1b" }; const char *t = tool_wtext( form[ v[ 1 ] - 10 ], c );
			b = big - strlen( t ) - 1; strcpy( b, t ); if( b[ 0 ] == '-' ) b[ 1 ] = with;
			if( ( v[ 1 ] == 13 || v[ 1 ] == 15 ) && ( strchr( o, with ) == NULL || strchr( o, with )[ 1 ] != ':' ) ) return 0;
			if( v[ 1 ] == 12 || v[ 1 ] == 17 ) av[ n++ ] = w;
			av[ n++ ] = b; av[ n++ ] = f; break;
		}
		default: b = big - c - 1; memset( b, 'a', c ); b[ c ] = 0; av[ n++ ] = w; av[ n++ ] = b; av[ n++ ] = f; break;
	}
	av[ n ] = NULL;
	for( int i = 0; i < n; i++ ) { kp[ i ] = av[ i ]; if( strlen( av[ i ] ) > 20 ) { kp[ i ] = copy; strcpy( copy, av[ i ] ); } }
	return follow( o, n, av, cp, kp );
}
int mc_eval( const long *v, int n )
{
	char *av[ MAXA + 2 ], *cp[ MAXA + 2 ], *kp[ MAXA + 2 ]; int argc; static char keep[ MAXA + 2 ][ 40 ];
	if( v[ 0 ] < 0 ) return longer( v );
	argc = build( v, n, av );
	for( int i = 0; i < argc; i++ ) { kp[ i ] = keep[ i ]; strcpy( keep[ i ], av[ i ] ); }
	return follow( ostr[ v[ 0 ] ], argc, av, cp, kp );
}
static int follow( const char *o, int argc, char **av, char **cp, char **keep )
{
	char os[ 32 ]; int calls = 0, limit = 4, saw = 0; char *const *pv;
	for( int i = 0; i <= argc; i++ ) { cp[ i ] = av[ i ]; if( av[ i ] ) limit += strlen( av[ i ] ); }
	memcpy( vec - ( argc + 1 ) * sizeof( char * ), av, ( argc + 1 ) * sizeof( char * ) ); pv = (char *const *) ( vec - ( argc + 1 ) * sizeof( char * ) );
	for( int i = 0; i < mc_nseg; i++ ) rawcpy( mc_wseg[ i ], tool_seg[ i ], mc_wlen[ i ] );
	sprintf( os, "+%s", o ); optind = 0; opterr = 0; optarg = NULL; cn_stream = NULL;
	for( ;; )
	{
		int w, r; char *warg; int wind;
		w = getopt( argc, cp, os ); warg = optarg; wind = optind;
		r = own( argc, pv, o );
		calls++;
#define SAY( ... ) do { char t_[ 200 ]; snprintf( t_, sizeof t_, __VA_ARGS__ ); mc_say( "options \"%s\", arguments %.400s: call %d %s", o, tool_argv_text( argc, av ), calls, t_ ); return 1; } while( 0 )
		if( r != w ) SAY( "returns %s instead of %s", q( r ), q( w ) );
		if( r == '?' || r == ':' ) { saw = 1; if( *o_opt != optopt ) SAY( "reports option %s instead of %s", q( *o_opt ), q( optopt ) ); }
		else if( r != -1 )
		{
			const char *p = strchr( o, r ); saw = 1;
			if( p && p[ 1 ] == ':' && *o_arg != warg ) SAY( "gives the argument %s instead of %s", *o_arg ? *o_arg : "(none)", warg ? warg : "(none)" );
		}
		if( argc < 8 || r == -1 ) for( int i = 0; i < argc; i++ ) if( pv[ i ] != av[ i ] || strcmp( av[ i ], keep[ i ] ) ) SAY( "changes the arguments" );
		if( r == -1 )
		{
			int i = *o_ind;
			if( i > argc ) i = argc;
			if( i != wind ) SAY( "ends with operand index %d instead of %d", i, wind );
			if( own( argc, pv, o ) != -1 || ( *o_ind > argc ? argc : *o_ind ) != wind )
			{
				/* asked again after the end: an argument list that ended at "--" may go on at its first operand */
				int ended = wind > 1 && !strcmp( av[ wind - 1 ], "--" );
				if( !ended ) SAY( "followed by another does not stay at the end" );
			}
			break;
		}
		if( calls > limit ) SAY( "does not come to an end" );
	}
	if( saw ) mc_nontrivial++;
	return 0;
}
static long code( const long *c, int n ) { unsigned long x = 0; for( int i = n - 1; i >= 0; i-- ) x = x << 4 | c[ i ]; return n ? -(long) x : 4; }
void mc_enumerate( void )
{
	int T_ = mc_thorough, na = strlen( chr ); static long w1[ 60000 ]; int n1 = 0;
	for( int o = 0; o < NOSTR; o++ )
	{
		int W = NWORD, D = T_ ? 5 : 4, Wd = o < 4 ? ( T_ ? 24 : 18 ) : ( T_ ? 20 : 12 );
		long v[ MAXA ] = { o };
		mc_do( v, 1 );
		for( v[ 1 ] = 0; v[ 1 ] < W; v[ 1 ]++ ) { mc_do( v, 2 ); for( v[ 2 ] = 0; v[ 2 ] < W; v[ 2 ]++ ) { mc_do( v, 3 ); for( v[ 3 ] = 0; v[ 3 ] < W; v[ 3 ]++ ) mc_do( v, 4 ); } }
		for( int d = 4; d <= D; d++ )
		{
			long t = 1; for( int i = 0; i < d; i++ ) t *= Wd;
			for( long x = 0; x < t; x++ ) { long y = x; for( int i = 0; i < d; i++, y /= Wd ) v[ i + 1 ] = y % Wd; mc_do( v, d + 1 ); }
		}
	}
	/* every word of up to 4 characters, alone and before another; every group */
	for( int l = 0; l <= 4; l++ )
	{
		long t = 1; for( int i = 0; i < l; i++ ) t *= na;
		for( long x = 0; x < t; x++ ) { long y = x, c[ 8 ]; for( int i = 0; i < l; i++, y /= na ) c[ i ] = y % na + 1; w1[ n1++ ] = code( c, l ); }
	}
	for( int o = 0; o < NOSTR; o++ ) for( int i = 0; i < n1; i++ ) { long v[ 3 ] = { o, w1[ i ], 0 }; mc_do( v, 2 ); for( int j = 0; j < ( T_ ? NWORD : 6 ); j++ ) { v[ 2 ] = j; mc_do( v, 3 ); } }
	/* every pair of words of up to two (three) characters starting with an option marker or not */
	for( int o = 0; o < ( T_ ? NOSTR : 4 ); o++ )
	{
		int m = 1 + na + na * na + ( T_ ? na * na * na : 0 );
		for( int i = 0; i < m; i++ ) for( int j = 0; j < 1 + na + na * na; j++ ) { long v[ 3 ] = { o, w1[ i ], w1[ j ] }; mc_do( v, 3 ); }
	}
	/* groups of up to 6 (7) option characters behind one marker */
	for( int o = 0; o < NOSTR; o++ ) for( int l = 4; l <= ( T_ ? 7 : 6 ); l++ )
	{
		long t = 1; for( int i = 0; i < l; i++ ) t *= 5;
		for( long x = 0; x < t; x++ ) { static const int pick[] = { 2, 3, 1, 4, 5 }; long y = x, c[ 10 ] = { 1 }; for( int i = 0; i < l; i++, y /= 5 ) c[ i + 1 ] = pick[ y % 5 ]; long v[ 3 ] = { o, code( c, l + 1 ), 5 }; mc_do( v, 2 ); mc_do( v, 3 ); }
	}
	if( tool_wide() ) for( int o = 0; o < ( T_ ? NOSTR : 4 ); o++ ) for( int k = 10; k < 18; k++ ) for( int c = 0x100; c < 0x10000; c++ ) MC_DO( -1 - o, k, c );
	/* long command lines and words */
	for( int o = 0; o < NOSTR; o++ ) for( int k = 0; k < 10; k++ )
	{
		static const int at[] = { 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537 };
		for( int c = 1; c <= ( T_ ? 1100 : 300 ); c++ ) MC_DO( -1 - o, k, c );
		for( unsigned j = 0; j < sizeof at / sizeof at[ 0 ]; j++ ) if( j < 10 || o < 2 || T_ ) MC_DO( -1 - o, k, at[ j ] );
	}
}
