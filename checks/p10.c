/* One behaviour for every build of the library.
 * v = [ kind, alg, a, b ]
 *  0: digest of a bytes, pattern b        1: a bytes fed in two updates, cut at b
 *  2: HMAC, key a bytes, message b bytes  3: a calls history number b (create, update, refused calls, finalize, free)
 *  4: output buffer of 2^32 + a bytes, call b (digest, HMAC, finalize)
 *  5: version string and the other functions of the library as such */
#include "h.h"
static uint8_t *buf, *big; static size_t bign = sizeof( long ) == 4 ? 0x7fffffff : (size_t) ( ( 1ULL << 32 ) + ( 1ULL << 20 ) );
const char *mc_rule( void ) { return ""; }
void mc_init( void )
{
	buf = malloc( 1 << 16 );
	big = mmap( NULL, bign, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	if( big == MAP_FAILED ) { perror( "mmap" ); _exit( 2 ); }
	for( int a = 0; a < NALG; a++ )    /* a provider keeps what it loads on first use */
	{
		void *c = NULL; uint8_t out[ 64 ];
		api[ a ].init( &c, NULL ); api[ a ].free( &c, NULL ); api[ a ].calc( buf, 1, out, 64, NULL ); api[ a ].hmac( buf, 1, buf, 1, out, 64, NULL );
	}
}
static const char *opn[] = { "update 0", "update 1", "update 55", "update 64", "update 129", "update without buffer", "update beyond maximum", "create on set reference", "finalize into too small", "finalize without buffer" };
static int hist( int a, long len, long h )
{
	void *c = NULL, *err = NULL; uint8_t out[ 64 ], want[ 64 ]; int r, w; size_t fed = 0; long live = mc_live, k;
	static const size_t us[] = { 0, 1, 55, 64, 129 };
	if( api[ a ].init( &c, &err ) != 1 || c == NULL || err ) { mc_say( "creating a %s context fails", ref_name[ a ] ); return 1; }
	for( k = 0; k < len; k++, h /= 10 )
	{
		int op = h % 10; void *c0 = c;
		w = op < 5 ? 1 : -1; memset( out, 0xee, sizeof out );
		switch( op )
		{
			default: r = api[ a ].update( c, buf + fed, us[ op ], &err ); fed += us[ op ]; break;
			case 5: r = api[ a ].update( c, NULL, 3, &err ); break;
			case 6: r = api[ a ].update( c, buf, (size_t) SSIZE_MAX + 1, &err ); break;
			case 7: r = api[ a ].init( &c, &err ); break;
			case 8: r = api[ a ].final( c, out, ref_dlen[ a ] - 1, &err ); break;
			case 9: r = api[ a ].final( c, NULL, ref_dlen[ a ], &err ); break;
		}
		if( r != w || ( err != NULL ) != ( w < 0 ) || c != c0 ) { mc_say( "%s: %s returns %d, error %s, the other builds return %d", ref_name[ a ], opn[ op ], r, err ? "set" : "not set", w ); return 1; }
		if( err ) mc_err_free( &err );
	}
	if( ( r = api[ a ].final( c, out, sizeof out, &err ) ) != 1 || err ) { mc_say( "%s: finalize returns %d", ref_name[ a ], r ); return 1; }
	ref_digest( a, buf, fed, want );
	if( memcmp( out, want, ref_dlen[ a ] ) ) { mc_say( "%s of %zu bytes in %ld calls is %s, the standard says %s", ref_name[ a ], fed, len, mc_hex( out, ref_dlen[ a ] ), mc_hex( want, ref_dlen[ a ] ) ); return 1; }
	if( ( r = api[ a ].free( &c, &err ) ) != 1 || c || err || mc_live != live ) { mc_say( "%s: free returns %d, %ld blocks left", ref_name[ a ], r, mc_live - live ); return 1; }
	return 0;
}
int mc_eval( const long *v, int n )
{
	uint8_t out[ 64 ], want[ 64 ]; void *err = NULL, *c = NULL; int a = v[ 1 ], r = 0, i; (void) n;
	memset( out, 0xee, sizeof out ); mc_nontrivial++;
	for( i = 0; i < 4096; i++ ) buf[ i ] = mc_pat( v[ 0 ] == 0 ? v[ 3 ] : 4, i );
	switch( v[ 0 ] )
	{
		case 0:
			r = api[ a ].calc( buf, v[ 2 ], out, sizeof out, &err ); ref_digest( a, buf, v[ 2 ], want ); break;
		case 1:
			if( api[ a ].init( &c, &err ) != 1 || api[ a ].update( c, buf, v[ 3 ], &err ) != 1 || api[ a ].update( c, buf + v[ 3 ], v[ 2 ] - v[ 3 ], &err ) != 1 ) { mc_say( "%s: updates of %ld and %ld bytes fail", ref_name[ a ], v[ 3 ], v[ 2 ] - v[ 3 ] ); return 1; }
			r = api[ a ].final( c, out, ref_dlen[ a ], &err ); ref_digest( a, buf, v[ 2 ], want );
			api[ a ].free( &c, &err ); break;
		case 2:
			r = api[ a ].hmac( buf + 1000, v[ 2 ], buf, v[ 3 ], out, sizeof out, &err ); ref_hmac( a, buf + 1000, v[ 2 ], buf, v[ 3 ], want ); break;
		case 3: return hist( a, v[ 2 ], v[ 3 ] );
		case 4:
		{
			size_t on = sizeof( long ) == 4 ? 0x7fffffffUL - ( v[ 2 ] + 1 ) : (size_t) ( ( 1ULL << 32 ) + v[ 2 ] );
			if( v[ 3 ] == 0 ) r = api[ a ].calc( buf, 100, big, on, &err ), ref_digest( a, buf, 100, want );
			if( v[ 3 ] == 1 ) r = api[ a ].hmac( buf + 1000, 20, buf, 100, big, on, &err ), ref_hmac( a, buf + 1000, 20, buf, 100, want );
			if( v[ 3 ] == 2 )
			{
				if( api[ a ].init( &c, &err ) != 1 || api[ a ].update( c, buf, 100, &err ) != 1 ) { mc_say( "update fails" ); return 1; }
				r = api[ a ].final( c, big, on, &err ); ref_digest( a, buf, 100, want ); api[ a ].free( &c, NULL );
			}
			memcpy( out, big, ref_dlen[ a ] );
			for( i = ref_dlen[ a ]; i < 4096; i++ ) if( big[ i ] ) { mc_say( "%s: bytes after the digest are written", ref_name[ a ] ); return 1; }
			memset( big, 0, 64 );
			break;
		}
		case 5:
		{
			const char *( *ver )( void ) = (const char *( * )( void )) dlsym( mc_dl, "libhmac_get_version" );
			if( ver == NULL ) return 0;    /* not a function of this build */
			if( strcmp( ver(), "20241028" ) ) { mc_say( "the version is %s", ver() ); return 1; }
			return 0;
		}
	}
	if( r != 1 || err != NULL ) { mc_say( "%s: kind %ld (%ld, %ld) returns %d, error %s", ref_name[ a ], v[ 0 ], v[ 2 ], v[ 3 ], r, err ? "set" : "not set" ); if( err ) mc_err_free( &err ); return 1; }
	if( memcmp( out, want, ref_dlen[ a ] ) ) { mc_say( "%s: kind %ld (%ld, %ld) is %s, the standard says %s", ref_name[ a ], v[ 0 ], v[ 2 ], v[ 3 ], mc_hex( out, ref_dlen[ a ] ), mc_hex( want, ref_dlen[ a ] ) ); return 1; }
	return 0;
}
void mc_enumerate( void )
{
	int T = mc_thorough, small = !strncmp( mc_tag, "mix", 3 );
	MC_DO( 5, 0, 0, 0 );
	for( long a = 0; a < NALG; a++ )
	{
		long B = ref_block[ a ];
		for( long L = 0; L <= 3 * B + 1; L += small ? 9 : 1 ) for( long p = 0; p < ( small ? 1 : NPAT ); p++ ) MC_DO( 0, a, L, p );
		for( long L = 0; L <= 2 * B + 2; L += small ? 37 : T ? 1 : 3 ) for( long cut = 0; cut <= L; cut += small ? 11 : 1 ) MC_DO( 1, a, L, cut );
		for( long k = 0; k <= 2 * B + 2; k += small ? 13 : 1 ) for( long L = 0; L <= B; L += small ? 61 : T ? 1 : 16 ) MC_DO( 2, a, k, L );
		for( long d = 0, m = 1; d <= ( small ? 1 : T ? 5 : 3 ); d++, m *= 10 ) for( long h = 0; h < m; h++ ) MC_DO( 3, a, d, h );
		for( long d = -1; d <= 65; d += small ? 66 : 1 ) for( long w = 0; w < 3; w++ ) MC_DO( 4, a, d, w );
	}
}
