/* The public error functions against a recording error library.
 * v = [ 0, function, error, destination, size class, result ]   one call; the error library answers with the scripted result
 * v = [ 1, op, op, ... ]                                        a history on two errors, against the real (stand-in) error library */
#include "h.h"
#define libcerror_error_free real_free
#define libcerror_error_fprint real_fprint
#define libcerror_error_sprint real_sprint
#define libcerror_error_backtrace_fprint real_bfprint
#define libcerror_error_backtrace_sprint real_bsprint
#include "../stubs/libcerror_stub.c"
#undef libcerror_error_free
#undef libcerror_error_fprint
#undef libcerror_error_sprint
#undef libcerror_error_backtrace_fprint
#undef libcerror_error_backtrace_sprint
enum { F_FREE, F_FPRINT, F_SPRINT, F_BFPRINT, F_BSPRINT, NF };
static const char *fname[] = { "free", "fprint", "sprint", "backtrace_fprint", "backtrace_sprint" };
static struct { int f; const void *e, *d; size_t n; } rec;
static int nrec, script; static int scripted;
static int note( int f, const void *e, const void *d, size_t n ) { rec.f = f; rec.e = e; rec.d = d; rec.n = n; nrec++; return scripted; }
void libcerror_error_free( libcerror_error_t **e ) { if( note( F_FREE, e, NULL, 0 ) ) { if( script && e ) *e = NULL; return; } real_free( e ); }
int libcerror_error_fprint( libcerror_error_t *e, FILE *s ) { return note( F_FPRINT, e, s, 0 ) ? script : real_fprint( e, s ); }
int libcerror_error_sprint( libcerror_error_t *e, char *s, size_t n ) { return note( F_SPRINT, e, s, n ) ? script : real_sprint( e, s, n ); }
int libcerror_error_backtrace_fprint( libcerror_error_t *e, FILE *s ) { return note( F_BFPRINT, e, s, 0 ) ? script : real_bfprint( e, s ); }
int libcerror_error_backtrace_sprint( libcerror_error_t *e, char *s, size_t n ) { return note( F_BSPRINT, e, s, n ) ? script : real_bsprint( e, s, n ); }
static void (*x_free)( void ** ); static int (*x_fp)( void *, FILE * ), (*x_sp)( void *, char *, size_t ), (*x_bfp)( void *, FILE * ), (*x_bsp)( void *, char *, size_t );
const char *mc_rule( void ) { return ""; }
void mc_init( void )
{
	x_free = dlsym( mc_dl, "libhmac_error_free" ); x_fp = dlsym( mc_dl, "libhmac_error_fprint" ); x_sp = dlsym( mc_dl, "libhmac_error_sprint" );
	x_bfp = dlsym( mc_dl, "libhmac_error_backtrace_fprint" ); x_bsp = dlsym( mc_dl, "libhmac_error_backtrace_sprint" );
	if( !x_free || !x_fp || !x_sp || !x_bfp || !x_bsp ) { fprintf( stderr, "no error functions\n" ); _exit( 2 ); }
}
static const size_t sizes[] = { 0, 1, 2, 3, 15, 16, 17, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 0x7fffffffUL, 0x80000000UL, 0xffffffffUL, 0x100000000UL, 0x100000001UL, 0x100000010UL,
	0x7fffffffffffffffUL, 0x8000000000000000UL, 0xffffffff00000000UL, ~0UL - 1, ~0UL };
enum { NSIZE = sizeof sizes / sizeof sizes[ 0 ] };
static const int rets[] = { -1, 0, 1, 2, 15, 16, 127, 128, 255, 256, 32767, 32768, 65535, 65536, -2, -128, -32768, INT_MAX, INT_MIN };
enum { NRET = sizeof rets / sizeof rets[ 0 ] };
static char buf[ 2 ][ 64 ], eobj[ 2 ][ 64 ];
static int call( int f, void **pe, void *e, void *d, size_t n )
{
	switch( f ) {
		case F_FREE: x_free( pe ); return 0;
		case F_FPRINT: return x_fp( e, d );
		case F_SPRINT: return x_sp( e, d, n );
		case F_BFPRINT: return x_bfp( e, d );
		default: return x_bsp( e, d, n );
	}
}
static int one( const long *v )
{
	int f = v[ 1 ], r, save; void *e = v[ 2 ] ? eobj[ v[ 2 ] - 1 ] : NULL, *var = e, **pe = f == F_FREE && v[ 3 ] == 1 ? NULL : &var;
	void *d = f == F_FREE ? NULL : v[ 3 ] ? ( f == F_FPRINT || f == F_BFPRINT ? (void *) ( v[ 3 ] == 1 ? stdout : stderr ) : buf[ v[ 3 ] - 1 ] ) : NULL;
	size_t n = sizes[ v[ 4 ] ];
	memset( buf, 0x5a, sizeof buf ); memset( eobj, 0x33, sizeof eobj );
	nrec = 0; scripted = 1; script = f == F_FREE ? v[ 5 ] & 1 : rets[ v[ 5 ] ]; save = script;
	r = call( f, pe, e, d, n );
	scripted = 0; mc_nontrivial++;
	for( size_t i = 0; i < sizeof buf; i++ ) if( ( (char *) buf )[ i ] != 0x5a ) { mc_say( "%s wrote to the destination itself", fname[ f ] ); return 1; }
	for( size_t i = 0; i < sizeof eobj; i++ ) if( ( (char *) eobj )[ i ] != 0x33 ) { mc_say( "%s changed the error", fname[ f ] ); return 1; }
	/* a call that cannot print or free anything may be answered without asking the error library */
	if( nrec == 0 && f == F_FREE && ( pe == NULL || e == NULL ) && var == e ) return 0;
	if( nrec == 0 && f != F_FREE && ( e == NULL || d == NULL ) && r == -1 ) return 0;
	if( nrec != 1 ) { mc_say( "%s asked the error library %d times", fname[ f ], nrec ); return 1; }
	if( rec.f != f ) { mc_say( "%s calls %s of the error library", fname[ f ], fname[ rec.f ] ); return 1; }
	if( f == F_FREE ? rec.e != pe && !( pe != NULL && e != NULL && *(void **) rec.e == NULL ) : rec.e != e ) { mc_say( "%s passes another error", fname[ f ] ); return 1; }
	if( rec.d != d ) { mc_say( "%s passes another destination", fname[ f ] ); return 1; }
	if( ( f == F_SPRINT || f == F_BSPRINT ) && rec.n != n ) { mc_say( "%s with size %zu passes size %zu", fname[ f ], n, rec.n ); return 1; }
	if( f != F_FREE && r != save ) { mc_say( "%s returns %d where the error library returned %d", fname[ f ], r, save ); return 1; }
	if( f == F_FREE && pe != NULL && save && var != NULL ) { mc_say( "free leaves the reference set" ); return 1; }
	return 0;
}
/* histories.  error variable k; op = k * 40 + o:  0..2 a rejected call (one-shot without data; context without one; output too small), 3 free,
 * 4 fprint, 5 backtrace_fprint, 6 + 8 b + j: sprint / backtrace_sprint with a destination of length - 2 + j (j 0..4), no error or no destination (5, 6), size 0 (7) */
enum { NOP = 22 };
static void *er[ 2 ]; static char want[ 2 ][ 2 ][ 8192 ];
static void model( int k )
{
	err_t *e = er[ k ]; size_t at = 0;
	want[ k ][ 0 ][ 0 ] = want[ k ][ 1 ][ 0 ] = 0;
	if( e == NULL || e->n == 0 ) return;
	strcpy( want[ k ][ 0 ], e->msg[ e->n - 1 ] );
	for( int i = 0; i < e->n; i++ ) at += sprintf( want[ k ][ 1 ] + at, "%s%s", e->msg[ i ], i + 1 < e->n ? "\n" : "" );
}
static int step( int k, int o )
{
	uint8_t out[ 64 ]; void *before = er[ k ], *other = er[ !k ]; int n0 = before ? ( (err_t *) before )->n : 0, r;
	if( o < 3 )
	{
		r = o == 0 ? api[ 0 ].calc( NULL, 3, out, 64, &er[ k ] ) : o == 1 ? api[ 1 ].update( NULL, out, 3, &er[ k ] ) : api[ 3 ].hmac( out, 3, out, 3, out, 5, &er[ k ] );
		if( r != -1 || er[ k ] == NULL || ( (err_t *) er[ k ] )->n <= n0 ) { mc_say( "a rejected call returned %d and added no message", r ); return 1; }
		if( before && before != er[ k ] ) { mc_say( "a rejected call replaced the error" ); return 1; }
		model( k );
	}
	else if( o == 3 )
	{
		x_free( &er[ k ] );
		if( er[ k ] != NULL ) { mc_say( "the reference is still set after free" ); return 1; }
		model( k );
	}
	else if( o < 6 )
	{
		static char got[ 8192 ]; FILE *m = fmemopen( got, sizeof got, "w" ); char exp[ 8200 ]; size_t l;
		r = o == 4 ? x_fp( er[ k ], m ) : x_bfp( er[ k ], m );
		fflush( m ); l = ftell( m ); fclose( m );
		if( er[ k ] == NULL ) { if( r != -1 || l != 0 ) { mc_say( "printing no error returned %d", r ); return 1; } }
		else
		{
			sprintf( exp, "%s\n", want[ k ][ o == 5 ] );
			if( r != (int) strlen( exp ) || l != strlen( exp ) || memcmp( got, exp, l ) ) { mc_say( "%s prints %.*s (%d), not %s", fname[ o == 4 ? F_FPRINT : F_BFPRINT ], (int) l, got, r, exp ); return 1; }
		}
	}
	else
	{
		static char got[ 8400 ]; int b = ( o - 6 ) / 8, j = ( o - 6 ) % 8; size_t l = strlen( want[ k ][ b ] ), n = j < 5 ? l + j > 2 ? l + j - 2 : 0 : j == 7 ? 0 : sizeof got - 16;
		char *d = j == 6 ? NULL : got; void *e = j == 5 ? NULL : er[ k ];
		memset( got, 0x5a, sizeof got );
		r = b ? x_bsp( e, d, n ) : x_sp( e, d, n );
		for( size_t i = n; i < sizeof got; i++ ) if( got[ i ] != 0x5a ) { mc_say( "%s wrote beyond %zu bytes", fname[ b ? F_BSPRINT : F_SPRINT ], n ); return 1; }
		if( e == NULL || d == NULL || n < l + 1 ) { if( r != -1 ) { mc_say( "%s of %zu characters into %zu bytes returned %d", fname[ b ? F_BSPRINT : F_SPRINT ], l, n, r ); return 1; } }
		else if( r != (int) l || strcmp( got, want[ k ][ b ] ) ) { mc_say( "%s gives \"%s\" (%d), not \"%s\"", fname[ b ? F_BSPRINT : F_SPRINT ], got, r, want[ k ][ b ] ); return 1; }
	}
	if( o > 3 && er[ k ] != before ) { mc_say( "printing replaced the error" ); return 1; }
	if( o > 3 && before && ( (err_t *) before )->n != n0 ) { mc_say( "printing changed the error" ); return 1; }
	if( er[ !k ] != other ) { mc_say( "the other error changed" ); return 1; }
	if( mc_err_live != !!er[ 0 ] + !!er[ 1 ] ) { mc_say( "%ld errors live, %d referred to", mc_err_live, !!er[ 0 ] + !!er[ 1 ] ); return 1; }
	return 0;
}
int mc_eval( const long *v, int n )
{
	int bad = 0;
	if( v[ 0 ] == 0 ) return one( v );
	mc_nontrivial++; mc_err_live = 0; er[ 0 ] = er[ 1 ] = NULL; model( 0 ); model( 1 ); scripted = 0;
	for( int i = 1; i < n && !bad; i++ ) bad = step( v[ i ] / 40, v[ i ] % 40 );
	for( int k = 0; k < 2; k++ ) real_free( (libcerror_error_t **) &er[ k ] );
	return bad;
}
void mc_enumerate( void )
{
	for( long f = 0; f < NF; f++ ) for( long e = 0; e < 3; e++ ) for( long d = 0; d < ( f == F_FREE ? 2 : 3 ); d++ )
		for( long s = 0; s < ( f == F_SPRINT || f == F_BSPRINT ? NSIZE : 1 ); s++ ) for( long r = 0; r < ( f == F_FREE ? 2 : NRET ); r++ ) MC_DO( 0, f, e, d, s, r );
	/* all histories: errors grow by any rejected call, or are freed, then are observed in every way, twice over */
	for( int depth = 1; depth <= ( mc_thorough ? 6 : 5 ); depth++ )
	{
		long t = 1; for( int i = 0; i < depth; i++ ) t *= 8;
		for( long x = 0; x < t; x++ )
		{
			long v[ 16 ] = { 1 }; long y = x; int i;
			for( i = 0; i < depth; i++, y /= 8 ) v[ 1 + i ] = y % 8 / 4 * 40 + y % 4;
			for( long k = 0; k < 2; k++ ) for( long o = 3; o < NOP; o++ )
			{
				v[ 1 + i ] = k * 40 + o; mc_do( v, i + 2 );
				if( depth <= ( mc_thorough ? 4 : 3 ) ) for( long k2 = 0; k2 < 2; k2++ ) for( long o2 = 3; o2 < NOP; o2++ ) { v[ 2 + i ] = k2 * 40 + o2; mc_do( v, i + 3 ); }
			}
		}
	}
}
