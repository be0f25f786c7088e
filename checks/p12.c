/* The checksum tool reading its input: every way the data can arrive.
 * v = [ size reported, bytes there, -p value (0: no -p), digest mask, event that fails (-1: none), how, style, choice... ]
 * style 0: every read may deliver any count, 0 or an error; style 1: one of a few counts; missing choices mean "all that was asked for" */
#include "tool.h"
#include "largemap.h"
#include <sys/time.h>
const char *mc_rule( void ) { return ""; }
enum { MAXC = 1200, BIG = 300000 };
static uint8_t data[ BIG ];
static long ch[ MAXC ]; static int nch, ich, style; static long width[ MAXC ]; static int bad_read; static long fev; static int fhow, fkind;
static long rd( size_t k, uint64_t at )
{
	long c; int w;
	(void) at;
	if( style == 0 ) w = (int) k + 2; else w = 8;
	if( k == 0 ) w = 2;
	if( ich < MAXC ) width[ ich ] = w;
	c = ich < nch ? ch[ ich ] : 0; ich++;
	if( c >= w ) c = 0;
	if( c == 0 ) return k;
	if( c == 1 ) { bad_read |= 1; return -1; }
	if( style == 0 ) { if( c == 2 ) { bad_read |= 2; return 0; } return c - 2; }
	switch( c )
	{
		case 2: bad_read |= 2; return 0;
		case 3: return 1;
		case 4: return k > 1 ? (long) k - 1 : (long) k;
		case 5: return k > 1 ? (long) k / 2 : (long) k;
		case 6: return k > 64 ? 64 : (long) k;
		default: return k > 119 ? 119 : (long) k;
	}
}
static int fl( int k, long i ) { if( i == fev ) { fkind = k; return fhow; } return 0; }
static const char *opts[ 16 ];
static char *argv_[ 8 ]; static int argc_;
static void args( const long *v )
{
	static char p[ 32 ]; int n = 0;
	argv_[ n++ ] = "hmacsum";
	if( v[ 2 ] ) { snprintf( p, sizeof p, "%ld", v[ 2 ] ); argv_[ n++ ] = "-p"; argv_[ n++ ] = p; }
	if( v[ 3 ] >> 1 ) { argv_[ n++ ] = "-d"; argv_[ n++ ] = (char *) opts[ v[ 3 ] >> 1 ]; }
	argv_[ n++ ] = "data"; argv_[ n ] = NULL; argc_ = n;
}
static const char *lenient( int mask )
{
	static char b[ 512 ];
	for( int k = 0; k < 5; k++ )
	{
		char l[ 64 ], *p; int hit = 0;
		snprintf( l, sizeof l, "%s hash calculated over data:", dg_label[ k ] );
		for( p = T.out; ( p = strstr( p, l ) ); ) { size_t n = strlen( tool_want[ k ] ); p += strlen( l ); while( *p == '\t' || *p == ' ' ) p++; if( !strncmp( p, tool_want[ k ], n ) && p[ n ] == '\n' ) hit = 1; }
		if( hit != ( mask >> k & 1 ) ) { snprintf( b, sizeof b, "the %s digest was %s", dg_label[ k ], hit ? "printed" : "not printed" ); return b; }
	}
	return NULL;
}
static uint64_t dg_n = UINT64_MAX; static long dg_mask;
static void large_of( int a, uint64_t L, uint8_t *out )
{
	if( L >= lck_base[ 0 ] ) want_of( a, 0, L, out ); else ref_digest( a, big, L, out );
}
/* where a long has 32 bits, sizes beyond it are written -( x >> 31 << 20 | x & 0xfffff ) */
static long enc( uint64_t x ) { return sizeof( long ) == 8 || x <= 0x7fffffff ? (long) x : -(long) ( x >> 31 << 20 | ( x & 0xfffff ) ); }
static uint64_t dec( long v ) { return v >= 0 ? (uint64_t) v : ( (uint64_t) -v >> 20 << 31 ) + ( -v & 0xfffff ); }
int mc_eval( const long *v, int n )
{
	tout_t o; const char *w; int short_; static int patient; uint64_t size = dec( v[ 0 ] ), avail = dec( v[ 1 ] );
	if( patient != ( size > 1L << 27 ) )
	{
		struct itimerval tv = { 0 };
		patient = !patient; tv.it_value.tv_sec = tv.it_interval.tv_sec = patient ? 400 : 30; setitimer( ITIMER_VIRTUAL, &tv, NULL );
	}
	tool_reset();
	if( size > BIG && big == NULL ) large_map( sizeof( long ) == 4 ? 1ULL << 30 : ( 1ULL << 32 ) + 64 );
	T.data = size > BIG ? big : data; T.mapped = size > BIG ? bign : 0; T.unit = LUNIT;
	T.size = size; T.avail = avail; T.exists = "data"; T.reads_max = 2 * ( size < BIG ? size : size / 64 ) + 50; T.stdin_open = 1;
	fev = v[ 4 ]; fhow = v[ 5 ]; style = v[ 6 ]; nch = n - 7; fkind = -1; ich = 0; bad_read = 0;
	for( int i = 0; i < nch && i < MAXC; i++ ) ch[ i ] = v[ 7 + i ];
	T.read = rd; T.fail = fl;
	args( v ); tool_run( argc_, argv_ ); tool_parse( &o );
	mc_nontrivial += T.failed > 0 || size > 0;
	if( T.bad ) { mc_say( "%s (%s)", T.bad, tool_argv_text( argc_, argv_ ) ); return 1; }
	if( T.ended == 2 ) { mc_say( "the tool kills itself" ); return 1; }
	if( dg_n != size || ( v[ 3 ] & ~dg_mask ) )
	{
		dg_n = size; dg_mask = dg_n <= BIG ? 31 : v[ 3 ];
		if( dg_n <= BIG ) tool_digests( data, dg_n );
		else for( int k = 0; k < 5; k++ ) if( v[ 3 ] >> k & 1 ) { uint8_t h[ 64 ]; large_of( k, dg_n, h ); strcpy( tool_want[ k ], mc_hex( h, ref_dlen[ k ] ) ); } else strcpy( tool_want[ k ], "?" );
	}
	short_ = avail < size;
	if( T.status == 0 )
	{
		if( bad_read ) { mc_say( "succeeds although %s", bad_read & 1 ? "reading failed" : "the data ended early" ); return 1; }
		if( short_ ) { mc_say( "succeeds although the data end after %llu of %llu bytes", (unsigned long long) avail, (unsigned long long) size ); return 1; }
		if( fkind == EV_FOPEN || fkind == EV_FSIZE || fkind == EV_FREAD || fkind == EV_FCLOSE ) { mc_say( "succeeds although a %s failed", ev_name[ fkind ] ); return 1; }
		w = fkind == EV_OUT ? lenient( v[ 3 ] ) : tool_exact( &o, v[ 3 ] );   /* the version line may be damaged */
		if( w ) { mc_say( "%llu bytes (%s): succeeds but %s%s%s", (unsigned long long) size, tool_argv_text( argc_, argv_ ), w, fkind >= 0 ? " after a failing " : "", fkind >= 0 ? ev_name[ fkind ] : "" ); return 1; }
		return 0;
	}
	if( !bad_read && !short_ && fkind < 0 ) { mc_say( "%llu bytes (%s): fails for no reason: %.200s", (unsigned long long) size, tool_argv_text( argc_, argv_ ), T.err ); return 1; }
	if( ( bad_read || short_ || fkind == EV_FOPEN || fkind == EV_FSIZE || fkind == EV_FREAD ) && o.nd ) { mc_say( "prints a digest although %s failed", fkind == EV_FOPEN ? "opening" : fkind == EV_FSIZE ? "sizing" : "reading" ); return 1; }
	for( int k = 0; k < 5; k++ ) if( o.seen[ k ] && !strchr( o.hex[ k ], '~' ) && fkind != EV_OUT && strcmp( o.hex[ k ], tool_want[ k ] ) ) { mc_say( "fails, but prints %s %s instead of %s", dg_label[ k ], o.hex[ k ], tool_want[ k ] ); return 1; }
	return 0;
}
/* all choice sequences with at most dev choices other than 0 */
static long v_[ 7 + MAXC ];
static void tree( int len, int dev )
{
	long wd; int reads;
	mc_cur( v_, 7 + len ); mc_evals++;
	if( mc_eval( v_, 7 + len ) ) { mc_report( v_, 7 + len ); return; }
	if( ( mc_evals & ( mc_evals - 1 ) ) == 0 ) mc_sample( v_, 7 + len );
	if( dev == 0 ) return;
	reads = ich < 60 ? ich : 60;
	{
		long w[ 60 ]; memcpy( w, width, sizeof( long ) * reads );
		for( int i = len; i < reads; i++ )
		{
			wd = w[ i ];
			for( long c = 1; c < wd; c++ ) { v_[ 7 + i ] = c; tree( i + 1, dev - 1 ); }
			v_[ 7 + i ] = 0;
		}
	}
}
static void go( uint64_t size, uint64_t avail, long p, long mask, long ev, long how, long st, int dev )
{
	long h[] = { enc( size ), enc( avail ), p, mask, ev, how, st };
	memcpy( v_, h, sizeof h ); tree( 0, dev );
}
void mc_init( void )
{
	static char b[ 16 ][ 64 ]; static const char *nm[] = { "sha1", "sha224", "sha256", "sha512" };
	tool_init();
	for( int i = 0; i < BIG; i++ ) data[ i ] = mc_pat( 4, i );
	for( int m = 0; m < 16; m++ ) { for( int k = 0; k < 4; k++ ) if( m >> k & 1 ) { if( b[ m ][ 0 ] ) strcat( b[ m ], "," ); strcat( b[ m ], nm[ k ] ); } opts[ m ] = b[ m ]; }
}
void mc_enumerate( void )
{
	static const long big[] = { 32767, 32768, 32769, 65535, 65536, 65537, 98304, 131073 }, mid[] = { 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 191, 192, 256, 300 }, bs[] = { 1, 7, 63, 64, 65, 128, 256, 301 };
	int T_ = mc_thorough; long s, a, p, m, e, h;
	/* small inputs: everything that can happen at every read */
	for( s = 0; s <= ( T_ ? 9 : 7 ); s++ ) for( a = 0; a <= s + 2; a++ ) for( p = 1; p <= s + 2; p++ ) for( m = 1; m < 32; m += 2 )
		if( m == 1 || m == 31 || ( a == s && p == 3 ) ) if( mc_mine() ) go( s, a, p, m, -1, 0, 0, a == s ? 100 : 3 );
	/* every event fails, also together with unusual reads */
	for( m = 1; m < 32; m += 2 ) for( s = 0; s < 4; s++ ) for( h = 1; h <= 2; h++ ) for( e = 0; e < 90; e++ ) if( mc_mine() ) go( s * 3, s * 3, m & 2 ? 4 : 0, m, e, h, 0, T_ ? 3 : 2 );
	/* around the block sizes and the default buffer */
	for( unsigned i = 0; i < sizeof mid / sizeof mid[ 0 ]; i++ ) for( unsigned j = 0; j < sizeof bs / sizeof bs[ 0 ]; j++ ) for( a = 0; a < 3; a++ )
		if( mc_mine() ) go( mid[ i ], a == 0 ? mid[ i ] : a == 1 ? mid[ i ] - 1 : mid[ i ] + 1, bs[ j ], 31, -1, 0, 1, bs[ j ] == 1 && !T_ ? 1 : 2 );
	for( unsigned i = 0; i < sizeof big / sizeof big[ 0 ]; i++ ) for( p = 0; p < 4; p++ ) for( m = 1; m < 32; m += 2 )
		if( m == 1 || m == 31 || T_ ) if( mc_mine() ) go( big[ i ], big[ i ], p == 0 ? 0 : p == 1 ? 32767 : p == 2 ? 4096 : 65537, m, -1, 0, 1, T_ || ( m == 1 && p != 2 ) ? 2 : 1 );
	/* large inputs, large buffers */
	if( !strstr( mc_tag, "-san" ) || T_ ) for( m = 0; m < ( sizeof( long ) == 4 && !T_ ? 1 : 5 ); m++ )
	{
		if( mc_mine() ) go( ( 1ULL << 32 ) + 13, ( 1ULL << 32 ) + 13, m == 0 ? 0 : m == 1 ? 1 << 20 : m == 2 ? 65536 : m == 3 ? 40000 : 1 << 24, m == 0 ? 1 : m == 1 ? 1 : 1 | 1 << m, -1, 0, 1, 0 );
		if( m < 2 || T_ ) if( mc_mine() ) go( ( 1ULL << 31 ) + 7, ( 1ULL << 31 ) + 7, m & 1 ? sizeof( long ) == 4 ? 1L << 29 : (long) ( ( 1ULL << 31 ) + 100 ) : 0, 1, -1, 0, 1, 0 );
		if( m < 2 || T_ ) if( mc_mine() ) go( ( 1ULL << 32 ) + 5, m & 1 ? 5 : 1ULL << 32, m & 1 ? 0 : 1 << 22, 1 | ( T_ ? 1 << m : 0 ), -1, 0, 1, 0 );
	}
	for( s = 19; s <= 25; s++ ) for( h = -1; h <= 1; h++ ) for( p = 0; p < 3; p++ ) if( mc_mine() ) go( ( 1L << s ) + h, ( 1L << s ) + h, p == 0 ? 0 : p == 1 ? 1 << 20 : ( 1L << s ) + 1, s & 1 ? 31 : 3, -1, 0, 1, 0 );
	/* every length up to some blocks in one run each */
	for( s = 0; s <= ( T_ ? 2200 : 600 ); s++ ) for( p = 0; p < 6; p++ ) if( mc_mine() ) go( s, s, p == 0 ? 0 : p == 1 ? 64 : p == 2 ? 100 : p == 3 ? s + 1 : p == 4 ? ( s > 1 ? s - 1 : 1 ) : 128, 31, -1, 0, 1, 0 );
}
