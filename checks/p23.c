/* The checksum tool when allocations and support library calls fail.
 * v = [ argument list, event, how, event, how, ... ]  events in rising order */
#include "tool.h"
const char *mc_rule( void ) { return ""; }
static const char *const args[][ 7 ] = {
	{ "data" }, { "-d", "sha512,sha256,sha224,sha1,md5", "data" }, { "-p", "50", "data" }, { "-v", "-d", "sha1", "-p", "64", "data" }, { "-d", "SHA-224,x", "-v", "data" }, { "-d", "sha256", "-p", "0", "data" },
	{ "none" }, { "-d", "sha512", "none" }, { "-p", "5x", "data" }, { "-d", "sha1", "-p", "1Q", "data" }, { "-h" }, { "-V" }, { "-x" }, { 0 }, { "-d" }, { "-d", "", "data" }, { "-p", "9EB", "-d", "sha1", "data" },
	{ "-d", "sha224", "data" }, { "-d", "sha256", "data" }, { "-d", "sha512", "data" }, { "-d", "sha1", "data" }, { "-d", "sha224,sha512", "-p", "119", "data" }, { "-d", "sha1,sha1,sha1,sha1", "data" }, { "-v", "none" },
	{ "-d", "sha256,sha1", "-p", "100", "data" } };
enum { NARG = sizeof args / sizeof args[ 0 ], MAXF = 9, NB = 120 };
static uint8_t data[ NB ]; static const long *fv; static int fn; static long hit; static long seen_ev; static int kinds[ 4096 ];
static int fl( int k, long i )
{
	if( i < 4096 ) kinds[ i ] = k;
	seen_ev = i + 1;
	for( int q = 0; q + 1 < fn; q += 2 ) if( fv[ q ] == i ) { hit++; return fv[ q + 1 ]; }
	return 0;
}
void mc_init( void )
{
	tool_init(); for( int i = 0; i < NB; i++ ) data[ i ] = mc_pat( 4, i );
	tool_digests( data, NB );
}
static int argc_; static char *argv_[ 9 ];
/* beyond the table: every set of digest types, every buffer size class, verbose or not, both inputs */
static const char *const psz[] = { NULL, "1", "50", "119", "120", "121", "0", "9EB", "1GiB", "x", "8ZB" };
enum { NPSZ = sizeof psz / sizeof psz[ 0 ], NGEN = 32 * NPSZ * 4 };
static void arguments( int a )
{
	static char d[ 64 ];
	argc_ = 1; argv_[ 0 ] = "hmacsum";
	if( a < NARG ) for( int i = 0; i < 7 && args[ a ][ i ]; i++ ) argv_[ argc_++ ] = (char *) args[ a ][ i ];
	else
	{
		static const char *const nm[] = { "md5", "sha1", "SHA-224", "sha_256", "SHA512" }; int g = a - NARG, m = g % 32, o = 0;
		d[ 0 ] = 0; for( int k = 4; k >= 0; k-- ) if( m >> k & 1 ) o += sprintf( d + o, "%s%s", o ? "," : "", nm[ k ] );
		if( m ) { argv_[ argc_++ ] = "-d"; argv_[ argc_++ ] = d; }
		g /= 32; if( psz[ g % NPSZ ] ) { argv_[ argc_++ ] = "-p"; argv_[ argc_++ ] = (char *) psz[ g % NPSZ ]; }
		g /= NPSZ; if( g & 1 ) argv_[ argc_++ ] = "-v";
		argv_[ argc_++ ] = g & 2 ? "none" : "data";
	}
	argv_[ argc_ ] = NULL;
}
static int kind_of( int a ) { const char *f = a < NARG ? args[ a ][ 0 ] : "data"; if( !f ) return 3; if( !strcmp( f, "-h" ) ) return 1; if( !strcmp( f, "-V" ) ) return 2; return 0; }
int mc_eval( const long *v, int n )
{
	int a = v[ 0 ], mask = 1, k = kind_of( a ); tout_t o; const char *w; static char fails[ 200 ]; int at = 0;
	arguments( a ); for( int i = 1; i < argc_; i++ ) if( !strcmp( argv_[ i ], "-d" ) && i + 1 < argc_ ) mask = tool_mask_of( argv_[ i + 1 ] );
	tool_reset(); T.data = data; T.size = T.avail = NB; T.exists = "data"; T.stdin_open = 1; T.alloc_max = 1 << 25; T.reads_max = 10000;
	fv = v + 1; fn = n - 1; hit = 0; seen_ev = 0; T.fail = fl; mc_alloc_complaint = NULL;
	tool_run( argc_, argv_ ); tool_parse( &o );
	if( hit * 2 != fn ) return 0;     /* a failure that did not come about */
	if( hit ) mc_nontrivial++;
	fails[ 0 ] = 0; for( int q = 0; q + 1 < fn && at < 150; q += 2 ) at += sprintf( fails + at, "%s%s %ld%s", q ? ", " : " with failing ", fv[ q ] < 4096 ? ev_name[ kinds[ fv[ q ] ] ] : "?", fv[ q ], fv[ q + 1 ] == 2 ? " (variant)" : "" );
#define SAY( ... ) do { char t_[ 600 ]; snprintf( t_, sizeof t_, __VA_ARGS__ ); mc_say( "hmacsum %s%s: %s", tool_argv_text( argc_, argv_ ), fails, t_ ); return 1; } while( 0 )
	if( T.bad ) SAY( "%s", T.bad );
	if( mc_alloc_complaint ) SAY( "%s", mc_alloc_complaint );
	if( T.ended == 2 ) SAY( "ends with signal %d", T.status );
	if( mc_live != tool_base_live ) SAY( "ends with %ld allocations not released", mc_live - tool_base_live );
	if( T.files || T.opens ) SAY( "ends with %ld file handles, %ld of them open", T.files, T.opens );
	if( T.splits ) SAY( "ends with %ld split strings not released", T.splits );
	if( mc_err_live ) SAY( "ends with %ld errors not released", mc_err_live );
	if( T.fail_kinds & ( 1 << EV_OUT ) ) return 0;    /* what could not be written is not judged here */
	if( k == 1 ) { if( T.status == 0 && o.usage != 1 ) SAY( "succeeds without printing the help" ); if( hit == 0 && T.status ) SAY( "fails" ); return 0; }
	if( k == 2 ) { if( T.status == 0 && o.copyright != 1 ) SAY( "succeeds without printing the copyright" ); if( hit == 0 && T.status ) SAY( "fails" ); return 0; }
	w = tool_exact( &o, mask );
	if( T.status == 0 && w ) SAY( "succeeds, but %s", w );
	if( T.status != 0 && o.nd && w ) SAY( "fails after printing digests, but %s", w );
	return 0;
}
static void more( long *v, int n, int depth)
{
	static int stackk[ MAXF + 1 ][ 4096 ]; long from = n > 1 ? v[ n - 2 ] + 1 : 0, nev; int *k = stackk[ depth ];
	/* which events a run with these failures has */
	{ long keep = mc_nontrivial; mc_eval( v, n ); mc_nontrivial = keep; } nev = seen_ev < 4096 ? seen_ev : 4096; memcpy( k, kinds, nev * sizeof *k );
	for( long e = from; e < nev; e++ )
	{
		if( k[ e ] == EV_ERR ) continue;
		for( int how = 1; how <= ( k[ e ] == EV_SPLITSEG ? 2 : 1 ); how++ )
		{
			v[ n ] = e; v[ n + 1 ] = how;
			if( n > 1 || mc_mine() ) { mc_cur( v, n + 2 ); if( mc_eval( v, n + 2 ) ) { mc_report( v, n + 2 ); } mc_evals++; if( mc_evals % 9973 == 7 ) mc_sample( v, n + 2 ); if( depth > 1 ) more( v, n + 2, depth - 1 ); }
		}
	}
}
void mc_enumerate( void )
{
	for( int a = 0; a < NARG + NGEN; a++ )
	{
		long v[ 2 * MAXF + 2 ] = { a };
		mc_do( v, 1 );
		more( v, 1, mc_thorough ? 8 : a < NARG ? 4 : 3 );
	}
}
