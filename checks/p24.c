/* The command line of the checksum tool.
 * v = [ output event that fails (-1: none), how, word... ]
 * v = [ -2, kind, count ]  long command lines */
#include "tool.h"
const char *mc_rule( void ) { return ""; }
enum { MAXA = 8 };
static const char *const word[] = { "-h", "-V", "-v", "-d", "-p", "data", "sha1", "64", "--", "-", "-x", "-vh", "none", "-dSHA-256,sha512", "", "-p0", "-pz", "-vx", "-vd", "-dh", "--help", "-hx", "-Vh", "-:", "-?", "-vp", "-vvv", "-hd", "md5,x", "1k", "-xh", "-", "-v-", "./data", "-p7", "d" };
enum { NWORD = sizeof word / sizeof word[ 0 ] };
static int own_parser; static char version[ 64 ];
static int (*conv)( const char *, size_t, uint64_t *, void ** );
static long fev; static int fhow, fkind, nout, first_out;
static int fl( int k, long i ) { (void) i; if( k != EV_OUT ) return 0; if( nout++ == fev ) { fkind = k; return fhow; } return 0; }
void mc_init( void )
{
	const char *(*gv)( void );
	tool_init(); tool_digests( (const uint8_t *) "abc", 3 );
	own_parser = dlsym( mc_dl, "hmactools_getopt" ) != NULL; conv = dlsym( mc_dl, "byte_size_string_convert" ); gv = dlsym( mc_dl, "libhmac_get_version" );
	if( !conv || !gv ) { fprintf( stderr, "functions missing\n" ); _exit( 2 ); }
	if( own_parser != !strncmp( mc_tag, "own", 3 ) ) { fprintf( stderr, "not the parser that was asked for\n" ); _exit( 2 ); }
	snprintf( version, sizeof version, "hmacsum %s\n\n", gv() );
}
static int judge( const long *v, int argc, char **av, char **cp );
enum { LONGA = 70000 };
static int longer( const long *v )
{
	static char *av[ LONGA + 8 ], *cp[ LONGA + 8 ], b[ LONGA + 64 ], b2[ LONGA + 64 ]; long c = v[ 2 ], ev[ 2 ] = { -1, 0 }; int n = 0;
	av[ n++ ] = "hmacsum";
	switch( v[ 1 ] )
	{
		case 0: for( long i = 0; i < c; i++ ) av[ n++ ] = "-v"; av[ n++ ] = "data"; break;
		case 1: av[ n++ ] = "data"; for( long i = 0; i < c; i++ ) av[ n++ ] = "other"; break;
		case 2: for( long i = 0; i < c; i++ ) av[ n++ ] = i & 1 ? "sha224" : "-d"; if( c & 1 ) av[ n++ ] = "sha512"; av[ n++ ] = "data"; break;
		case 3: b[ 0 ] = '-'; memset( b + 1, 'v', c ); b[ c + 1 ] = 0; av[ n++ ] = b; av[ n++ ] = "data"; break;
		case 4: memset( b, '0', c ); strcpy( b + c, "64" ); av[ n++ ] = "-p"; av[ n++ ] = b; av[ n++ ] = "data"; break;
		case 5: for( long i = 0; i < c; i++ ) av[ n++ ] = "-v"; av[ n++ ] = "-h"; av[ n++ ] = "data"; break;
		case 6: for( long i = 0; i < c; i++ ) av[ n++ ] = "-v"; av[ n++ ] = "-x"; av[ n++ ] = "data"; break;
		case 7: for( long i = 0; i < c; i++ ) av[ n++ ] = i & 1 ? "-v" : "-vv"; break;
		case 8: b[ 0 ] = '-'; memset( b + 1, 'v', c ); strcpy( b + c + 1, "dsha256" ); av[ n++ ] = b; av[ n++ ] = "data"; break;
		case 9: memset( b, 'z', c ); strcpy( b + c, ",sha1" ); sprintf( b2, "-d%s", b ); av[ n++ ] = b2; av[ n++ ] = "data"; break;
		case 10: strcpy( b, "data" ); memset( b + 4, 'a', c ); b[ c + 4 ] = 0; av[ n++ ] = b; break;       /* another name, starting with the name of the file */
		case 12: case 13: case 14: case 15: case 16: case 17: case 18: case 19:    /* a character beyond the bytes */
		{
			static const char *const form[] = { "data\1", "-dsha1\1", "\1data", "\1", "-\1", "-v\1", "\1-h", "6\1" };
			if( v[ 1 ] == 19 ) av[ n++ ] = "-p";
			strcpy( b, tool_wtext( form[ v[ 1 ] - 12 ], c ) ); av[ n++ ] = b; av[ n++ ] = "data"; break;
		}
		default: memset( b, 'a', c ); b[ c ] = 0; av[ n++ ] = "-V"; av[ n++ ] = b; break;
	}
	av[ n ] = NULL; memcpy( cp, av, ( n + 1 ) * sizeof *av );
	return judge( ev, n, av, cp );
}
int mc_eval( const long *v, int n )
{
	char *av[ MAXA + 2 ], *cp[ MAXA + 2 ]; int argc = n - 1;
	if( v[ 0 ] == -2 ) return longer( v );
	for( int i = 0; i < argc; i++ ) av[ i ] = cp[ i ] = i == 0 ? "hmacsum" : (char *) word[ v[ i + 1 ] ];
	av[ argc ] = cp[ argc ] = NULL;
	return judge( v, argc, av, cp );
}
static int judge( const long *v, int argc, char **av, char **cp )
{
	int c, want = 0, mask = 1, verbose = 0, operand, nothing = 0; char *d = NULL, *p = NULL; const char *src = NULL, *w; tout_t o; char keep[ 1024 ];
	static const char *const kind[] = { "should print the digests", "should print the help", "should print the copyright", "should fail with the usage", "should fail" };
	/* what it should do: 0 digests, 1 help, 2 copyright, 3 fail with usage, 4 fail */
	optind = 0; opterr = 0; optarg = NULL;
	while( want == 0 && ( c = getopt( argc, cp, own_parser ? "+d:hp:vV" : "d:hp:vV" ) ) != -1 )
		switch( c ) { case 'd': d = optarg; break; case 'p': p = optarg; break; case 'v': verbose = 1; break; case 'h': want = 1; break; case 'V': want = 2; break; default: want = 3; }
	operand = optind;
	if( want == 0 && operand >= argc ) want = 3;
	if( want == 0 )
	{
		void *e = NULL; uint64_t z = 1;
		src = cp[ operand ];
		if( d ) mask = tool_mask_of( d );
		tool_reset(); T.running = 0;
		if( p ) { if( conv( p, strlen( p ), &z, &e ) != 1 ) want = 4; else if( z == 0 ) nothing = 1; mc_err_free( &e ); }
		if( strcmp( src, "data" ) && strcmp( src, "./data" ) ) { if( want == 0 ) want = 4; }
	}
	snprintf( keep, sizeof keep, "%s", tool_argv_text( argc, av ) );
	tool_reset(); T.data = (const uint8_t *) "abc"; T.size = T.avail = 3; T.exists = src && !strcmp( src, "./data" ) ? "./data" : "data"; T.stdin_open = 1;
	fev = v[ 0 ]; fhow = v[ 1 ]; nout = 0; fkind = -1; (void) first_out;
	if( fev >= 0 ) T.fail = fl;
	tool_run( argc, av ); tool_parse( &o );
	if( argc > 1 ) mc_nontrivial++;
#define SAY( ... ) do { char t_[ 600 ]; snprintf( t_, sizeof t_, __VA_ARGS__ ); mc_say( "hmacsum %s%s: %s, %s", keep, fev >= 0 ? " (output fails)" : "", kind[ want ], t_ ); return 1; } while( 0 )
	if( T.bad ) SAY( "but: %s", T.bad );
	if( T.ended == 2 ) SAY( "but is killed by signal %d", T.status );
	if( fev >= 0 )
	{
		if( fkind < 0 ) return 0;
		/* what was asked for did not come out completely */
		if( ( want == 1 || want == 2 ) && fev > 0 && T.status == 0 ) SAY( "but succeeds after a failed write" );
		if( want >= 3 && T.status == 0 ) SAY( "but succeeds" );
		if( T.opened && want && want < 4 ) SAY( "but opens %s", T.name );
		if( o.nd && want ) SAY( "but prints a digest" );
		return 0;
	}
	if( strncmp( T.out, version, strlen( version ) ) ) SAY( "but starts with \"%.40s\" and not with name and version", T.out );
	if( strstr( T.out + strlen( version ), version ) ) SAY( "but prints the version twice" );
	if( want == 1 || want == 2 )
	{
		if( T.status != 0 ) SAY( "but exits with %d", T.status );
		if( T.opened || T.reads ) SAY( "but opens %s", T.name );
		if( o.nd ) SAY( "but prints a digest" );
		if( T.nerr != 0 ) SAY( "but reports: %.200s", T.err );
	}
	if( want == 1 )
	{
		static const char *const must[] = { "-d", "-p", "-h", "-v", "-V", "source", "md5", "sha1", "sha224", "sha256", "sha512", "32768" };
		if( o.usage != 1 || o.copyright ) SAY( "but prints the usage %d times and the copyright %d times", o.usage, o.copyright );
		for( unsigned i = 0; i < sizeof must / sizeof must[ 0 ]; i++ ) if( !strstr( T.out, must[ i ] ) ) SAY( "but the help does not mention %s", must[ i ] );
	}
	if( want == 2 && ( o.copyright != 1 || o.usage || !strstr( T.out, "warranty" ) || !strstr( T.out, "Report bugs to" ) ) ) SAY( "but prints the copyright %d times and the usage %d times", o.copyright, o.usage );
	if( want >= 3 )
	{
		if( T.status == 0 ) SAY( "but succeeds" );
		if( o.nd ) SAY( "but prints a digest" );
		if( T.nerr == 0 ) SAY( "but says nothing on stderr" );
	}
	if( want == 3 )
	{
		if( !o.usage && !strstr( T.err, "Usage: hmacsum" ) ) SAY( "but does not print the usage" );
		if( o.copyright ) SAY( "but prints the copyright" );
		if( T.opened ) SAY( "but opens %s", T.name );
	}
	if( src && T.opened && strncmp( T.name, src, sizeof T.name - 1 ) ) SAY( "but opens %s", T.name );
	if( want == 4 && ( o.usage || o.copyright ) ) SAY( "but prints usage or copyright" );
	if( want == 0 && nothing && T.status != 0 ) { if( o.nd || T.nerr == 0 ) SAY( "but prints %d digests and exits with %d", o.nd, T.status ); return 0; } /* no buffer to read into: refusing is right, too */
	if( want == 0 )
	{
		if( T.status != 0 ) SAY( "but exits with %d: %.200s", T.status, T.err );
		if( o.usage || o.copyright ) SAY( "but prints usage or copyright" );
		if( T.opened != 1 ) SAY( "but opens its source %ld times", T.opened );
		if( ( w = tool_exact( &o, mask ) ) ) SAY( "but %s", w );
		if( T.nerr != 0 && !p && !verbose ) SAY( "but reports: %.200s", T.err );   /* a buffer size may be replaced by the default with a remark */
		if( !!T.verbose != verbose ) SAY( "but verbose output is %s", T.verbose ? "on" : "off" );
	}
	return 0;
}
static void upto( int words, int from, int to )
{
	long v[ MAXA + 2 ] = { -1, 0 };
	for( int d = from; d <= to; d++ )
	{
		long t = 1; for( int i = 0; i < d; i++ ) t *= words;
		for( long x = 0; x < t; x++ ) { long y = x; for( int i = 0; i < d; i++, y /= words ) v[ i + 2 ] = y % words; mc_do( v, d + 2 ); }
	}
}
void mc_enumerate( void )
{
	int T_ = mc_thorough;
	upto( NWORD, 0, 3 ); upto( T_ ? 32 : 18, 4, 4 ); upto( T_ ? 14 : 8, 5, 5 ); upto( T_ ? 10 : 6, 6, 6 );
	for( int f = 0; f < 40; f++ ) for( int how = 1; how < 3; how++ )
	{
		MC_DO( f, how );
		for( int a = 0; a < NWORD; a++ ) { MC_DO( f, how, a ); for( int b = 0; b < ( T_ ? NWORD : 16 ); b++ ) MC_DO( f, how, a, b ); }
	}
	if( tool_wide() ) for( int k = 12; k < 20; k++ ) for( int c = 0x100; c < 0x10000; c++ ) MC_DO( -2, k, c );
	for( int k = 0; k < 12; k++ )
	{
		static const int at[] = { 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537 };
		for( int c = 0; c <= ( T_ ? 1100 : 300 ); c++ ) MC_DO( -2, k, c );
		for( unsigned j = 0; j < sizeof at / sizeof at[ 0 ]; j++ ) MC_DO( -2, k, at[ j ] );
	}
}
