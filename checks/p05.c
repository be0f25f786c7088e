/* Rejected calls at every point of a context's history.
 * v = [ alg, step, step, ... ]; a step is
 *   n >= 0        update with n bytes (must succeed)
 *   -1            finalize (must succeed, right digest)
 *   -2 ... -6     valid call with the largest accepted output size, SSIZE_MAX: finalize,
 *                 older finalize, one-shot, HMAC, HMAC with a long key
 *   -7 ... -12    valid call whose error reference already holds an error: update of 70
 *                 bytes, finalize, one-shot, HMAC, HMAC with a long key, initialize and free
 *   -13 ... -18   the same with no error reference
 *   -20000 - k    rejected call k whose error reference already holds an error
 *   -1000 - 2*k   rejected call k with an error asked for
 *   -1001 - 2*k   rejected call k with no error asked for
 * States are exact memory images (context, library data, bytes fed, finalized);
 * every rejected call is made in every state; if it changes the image the new
 * image is a state of its own and must behave the same from then on. */
#include "h.h"
static uint8_t msg[ 1 << 14 ], ob[ 512 ];
const char *mc_rule( void ) { return ""; }
static void *ctx; static long fed; static int done; static int alg;
enum { R_UPD_NULLCTX, R_UPD_NULLBUF0, R_UPD_NULLBUF1, R_UPD_NULLBUF9999, R_UPD_BIG, R_UPD_BIG2, R_UPD_MAX, R_UPD_NULLBOTH,
	R_FIN_NULLCTX, R_FIN_NULLOUT, R_FIN_BIG, R_FIN_MAX, R_FIN_NULLBOTH,
	R_INIT_NULL, R_INIT_SET, R_FREE_NULL,
	R_CALC_NULLBUF, R_CALC_NULLBUF0, R_CALC_BIG, R_CALC_MAX, R_CALC_NULLOUT, R_CALC_OBIG, R_CALC_OMAX,
	R_HMAC_NULLKEY, R_HMAC_NULLKEY0, R_HMAC_KBIG, R_HMAC_KMAX, R_HMAC_NULLBUF, R_HMAC_NULLBUF0, R_HMAC_BIG, R_HMAC_MAX, R_HMAC_NULLOUT, R_HMAC_OBIG, R_HMAC_OMAX, R_HMAC_LONGKEY_NULLBUF, R_HMAC_LONGKEY_BIG, R_HMAC_LONGKEY_NULLOUT,
	R_D_INIT_NULL, R_D_INIT_SET, R_D_FREE_NULL, R_D_UPD_NULLCTX, R_D_UPD_NULLBUF, R_D_UPD_BIG, R_D_FIN_NULLCTX, R_D_FIN_NULLOUT, R_D_FIN_BIG,
	R_FIXED };
/* then: finalize with every too small size, one-shot with every too small size, HMAC (short and long key) likewise, and the older finalize */
static int nrej( int a ) { return R_FIXED + 5 * (int) ref_dlen[ a ]; }
extern void libcerror_error_set( intptr_t **error, int domain, int code, const char *fmt, ... );
static void preset( void **err ) { libcerror_error_set( (intptr_t **) err, 'r', 0, "an earlier error" ); }
#define BIG ( (size_t) SSIZE_MAX + 1 )
static int reject( int k, int want_err, char *what )
{
	const api_t *f = &api[ alg ]; void *err = NULL, **e = want_err ? &err : NULL; long sets; int r = 99; size_t D = ref_dlen[ alg ]; static uint8_t before[ sizeof ob ]; void *c0 = ctx, *none = NULL; long live = mc_live;
	static uint8_t key[ 300 ]; int bad = 0; static void *spare_ctx; (void) spare_ctx;
	memset( ob, 0xee, sizeof ob ); memcpy( before, ob, sizeof ob );
	if( want_err == 2 ) preset( &err );
	sets = mc_err_sets;
#define C( id, text, call ) case id: strcpy( what, text ); r = call; break;
	switch( k )
	{
		C( R_UPD_NULLCTX, "update without context", f->update( NULL, msg, 5, e ) )
		C( R_UPD_NULLBUF0, "update without buffer, size 0", f->update( ctx, NULL, 0, e ) )
		C( R_UPD_NULLBUF1, "update without buffer, size 1", f->update( ctx, NULL, 1, e ) )
		C( R_UPD_NULLBUF9999, "update without buffer, size 9999", f->update( ctx, NULL, 9999, e ) )
		C( R_UPD_BIG, "update with size SSIZE_MAX + 1", f->update( ctx, msg, BIG, e ) )
		C( R_UPD_BIG2, "update with size SSIZE_MAX + 65", f->update( ctx, msg, BIG + 64, e ) )
		C( R_UPD_MAX, "update with size SIZE_MAX", f->update( ctx, msg, SIZE_MAX, e ) )
		C( R_UPD_NULLBOTH, "update without context and buffer", f->update( NULL, NULL, 0, e ) )
		C( R_FIN_NULLCTX, "finalize without context", f->final( NULL, ob, D, e ) )
		C( R_FIN_NULLOUT, "finalize without output", f->final( ctx, NULL, D, e ) )
		C( R_FIN_BIG, "finalize with output size SSIZE_MAX + 1", f->final( ctx, ob, BIG, e ) )
		C( R_FIN_MAX, "finalize with output size SIZE_MAX", f->final( ctx, ob, SIZE_MAX, e ) )
		C( R_FIN_NULLBOTH, "finalize without context and output", f->final( NULL, NULL, 0, e ) )
		C( R_INIT_NULL, "initialize without reference", f->init( NULL, e ) )
		C( R_INIT_SET, "initialize with a reference that is set", f->init( &ctx, e ) )
		C( R_FREE_NULL, "free without reference", f->free( NULL, e ) )
		C( R_CALC_NULLBUF, "one-shot without buffer", f->calc( NULL, 5, ob, D, e ) )
		C( R_CALC_NULLBUF0, "one-shot without buffer, size 0", f->calc( NULL, 0, ob, D, e ) )
		C( R_CALC_BIG, "one-shot with size SSIZE_MAX + 1", f->calc( msg, BIG, ob, D, e ) )
		C( R_CALC_MAX, "one-shot with size SIZE_MAX", f->calc( msg, SIZE_MAX, ob, D, e ) )
		C( R_CALC_NULLOUT, "one-shot without output", f->calc( msg, 5, NULL, D, e ) )
		C( R_CALC_OBIG, "one-shot with output size SSIZE_MAX + 1", f->calc( msg, 5, ob, BIG, e ) )
		C( R_CALC_OMAX, "one-shot with output size SIZE_MAX", f->calc( msg, 5, ob, SIZE_MAX, e ) )
		C( R_HMAC_NULLKEY, "HMAC without key", f->hmac( NULL, 5, msg, 5, ob, D, e ) )
		C( R_HMAC_NULLKEY0, "HMAC without key, key size 0", f->hmac( NULL, 0, msg, 5, ob, D, e ) )
		C( R_HMAC_KBIG, "HMAC with key size SSIZE_MAX + 1", f->hmac( key, BIG, msg, 5, ob, D, e ) )
		C( R_HMAC_KMAX, "HMAC with key size SIZE_MAX", f->hmac( key, SIZE_MAX, msg, 5, ob, D, e ) )
		C( R_HMAC_NULLBUF, "HMAC without message", f->hmac( key, 5, NULL, 5, ob, D, e ) )
		C( R_HMAC_NULLBUF0, "HMAC without message, size 0", f->hmac( key, 5, NULL, 0, ob, D, e ) )
		C( R_HMAC_BIG, "HMAC with message size SSIZE_MAX + 1", f->hmac( key, 5, msg, BIG, ob, D, e ) )
		C( R_HMAC_MAX, "HMAC with message size SIZE_MAX", f->hmac( key, 5, msg, SIZE_MAX, ob, D, e ) )
		C( R_HMAC_NULLOUT, "HMAC without output", f->hmac( key, 5, msg, 5, NULL, D, e ) )
		C( R_HMAC_OBIG, "HMAC with output size SSIZE_MAX + 1", f->hmac( key, 5, msg, 5, ob, BIG, e ) )
		C( R_HMAC_OMAX, "HMAC with output size SIZE_MAX", f->hmac( key, 5, msg, 5, ob, SIZE_MAX, e ) )
		C( R_HMAC_LONGKEY_NULLBUF, "HMAC with a long key without message", f->hmac( key, 300, NULL, 5, ob, D, e ) )
		C( R_HMAC_LONGKEY_BIG, "HMAC with a long key and message size SSIZE_MAX + 1", f->hmac( key, 300, msg, BIG, ob, D, e ) )
		C( R_HMAC_LONGKEY_NULLOUT, "HMAC with a long key without output", f->hmac( key, 300, msg, 5, NULL, D, e ) )
		C( R_D_INIT_NULL, "older initialize without reference", f->dinit( NULL, e ) )
		C( R_D_INIT_SET, "older initialize with a reference that is set", f->dinit( &ctx, e ) )
		C( R_D_FREE_NULL, "older free without reference", f->dfree( NULL, e ) )
		C( R_D_UPD_NULLCTX, "older update without context", f->dupdate( NULL, msg, 5, e ) )
		C( R_D_UPD_NULLBUF, "older update without buffer", f->dupdate( ctx, NULL, 5, e ) )
		C( R_D_UPD_BIG, "older update with size SSIZE_MAX + 1", f->dupdate( ctx, msg, BIG, e ) )
		C( R_D_FIN_NULLCTX, "older finalize without context", f->dfinal( NULL, ob, D, e ) )
		C( R_D_FIN_NULLOUT, "older finalize without output", f->dfinal( ctx, NULL, D, e ) )
		C( R_D_FIN_BIG, "older finalize with output size SSIZE_MAX + 1", f->dfinal( ctx, ob, BIG, e ) )
		default:
		{
			int kind = ( k - R_FIXED ) / (int) D, small = ( k - R_FIXED ) % (int) D;
			static const char *nm[] = { "finalize", "one-shot", "HMAC", "HMAC with a long key", "older finalize" };
			sprintf( what, "%s with output size %d", nm[ kind ], small );
			r = kind == 0 ? f->final( ctx, ob, small, e ) : kind == 1 ? f->calc( msg, 5, ob, small, e ) : kind == 2 ? f->hmac( key, 5, msg, 5, ob, small, e )
			  : kind == 3 ? f->hmac( key, 300, msg, 5, ob, small, e ) : f->dfinal( ctx, ob, small, e );
		}
	}
	if( r != -1 ) { mc_say( "%s: %s returns %d instead of -1", ref_name[ alg ], what, r ); bad = 1; }
	else if( want_err && ( err == NULL || ( want_err == 2 && mc_err_sets == sets ) ) ) { mc_say( "%s: %s sets no error%s", ref_name[ alg ], what, want_err == 2 ? " (the reference held one already)" : "" ); bad = 1; }
	else if( memcmp( ob, before, sizeof ob ) != 0 ) { mc_say( "%s: %s changes the output buffer", ref_name[ alg ], what ); bad = 1; }
	else if( ctx != c0 || none != NULL ) { mc_say( "%s: %s changes the context reference", ref_name[ alg ], what ); bad = 1; }
	else if( mc_live != live ) { mc_say( "%s: %s leaves %+ld allocated blocks", ref_name[ alg ], what, mc_live - live ); bad = 1; }
	else if( mc_alloc_complaint ) { mc_say( "%s: %s: %s", ref_name[ alg ], what, mc_alloc_complaint ); bad = 1; }
	mc_alloc_complaint = NULL;
	if( err ) mc_err_free( &err );
	if( mc_err_live != 0 && !bad ) { mc_say( "%s: %s leaks an error", ref_name[ alg ], what ); bad = 1; mc_err_live = 0; }
	return bad;
}
static int step_update( long n )
{
	void *err = NULL; int r = api[ alg ].update( ctx, msg + fed, n, &err );
	if( r != 1 || err ) { mc_say( "%s: update of %ld bytes after %ld bytes returns %d%s", ref_name[ alg ], n, fed, r, err ? " with an error" : "" ); if( err ) mc_err_free( &err ); return 1; }
	fed += n;
	return 0;
}
static int step_final( void )
{
	uint8_t out[ 64 ], want[ 64 ]; void *err = NULL; int r = api[ alg ].final( ctx, out, ref_dlen[ alg ], &err );
	ref_digest( alg, msg, fed, want );
	if( r != 1 || err ) { mc_say( "%s: finalize after %ld bytes returns %d%s", ref_name[ alg ], fed, r, err ? " with an error" : "" ); if( err ) mc_err_free( &err ); return 1; }
	if( memcmp( out, want, ref_dlen[ alg ] ) ) { mc_say( "%s of %ld bytes is %s instead of %s", ref_name[ alg ], fed, mc_hex( out, ref_dlen[ alg ] ), mc_hex( want, ref_dlen[ alg ] ) ); return 1; }
	done = 1;
	return 0;
}
/* the largest output size that is not above the signed maximum is accepted, and only the digest is written */
static int step_largest( int k )
{
	static const char *nm[] = { "finalize", "older finalize", "one-shot", "HMAC", "HMAC with a long key" };
	const api_t *f = &api[ alg ]; uint8_t out[ 128 ], want[ 64 ]; static uint8_t key[ 300 ]; void *err = NULL; int r; size_t D = ref_dlen[ alg ], M = SSIZE_MAX;
	memset( out, 0xee, sizeof out );
	if( k < 2 ) ref_digest( alg, msg, fed, want ); else if( k == 2 ) ref_digest( alg, msg, 5, want ); else ref_hmac( alg, key, k == 3 ? 5 : 300, msg, 5, want );
	r = k == 0 ? f->final( ctx, out, M, &err ) : k == 1 ? f->dfinal( ctx, out, M, &err ) : k == 2 ? f->calc( msg, 5, out, M, &err ) : f->hmac( key, k == 3 ? 5 : 300, msg, 5, out, M, &err );
	if( r != 1 || err ) { mc_say( "%s: %s with output size SSIZE_MAX returns %d%s", ref_name[ alg ], nm[ k ], r, err ? " with an error" : "" ); if( err ) mc_err_free( &err ); return 1; }
	if( memcmp( out, want, D ) ) { mc_say( "%s: %s with output size SSIZE_MAX gives %s instead of %s", ref_name[ alg ], nm[ k ], mc_hex( out, D ), mc_hex( want, D ) ); return 1; }
	for( size_t i = D; i < sizeof out; i++ ) if( out[ i ] != 0xee ) { mc_say( "%s: %s with output size SSIZE_MAX writes byte %zu of the output", ref_name[ alg ], nm[ k ], i ); return 1; }
	if( k < 2 ) done = 1;
	return 0;
}
/* an error reference that holds an error from an earlier call changes nothing and is not touched */
static int step_preset( int k, int given )
{
	static const char *nm[] = { "update", "finalize", "one-shot", "HMAC", "HMAC with a long key", "initialize and free" };
	const api_t *f = &api[ alg ]; uint8_t out[ 64 ], want[ 64 ]; static uint8_t key[ 300 ]; void *err = NULL, *held, *c = NULL, **e = given ? &err : NULL; int r; long sets; size_t D = ref_dlen[ alg ];
	if( given ) preset( &err );
	held = err; sets = mc_err_sets;
	if( k == 1 ) ref_digest( alg, msg, fed, want ); else if( k == 2 ) ref_digest( alg, msg, 5, want ); else ref_hmac( alg, key, k == 3 ? 5 : 300, msg, 5, want );
	r = k == 0 ? f->update( ctx, msg + fed, 70, e ) : k == 1 ? f->final( ctx, out, D, e ) : k == 2 ? f->calc( msg, 5, out, D, e )
	  : k < 5 ? f->hmac( key, k == 3 ? 5 : 300, msg, 5, out, D, e ) : f->init( &c, e ) == 1 && c != NULL ? f->free( &c, e ) : -1;
	if( k == 0 ) fed += 70;
	if( k == 1 ) done = 1;
	if( r != 1 ) { mc_say( "%s: %s returns %d when the error reference %s", ref_name[ alg ], nm[ k ], r, given ? "holds an earlier error" : "is missing" ); if( err ) mc_err_free( &err ); return 1; }
	if( err != held || ( given && mc_err_sets != sets ) ) { mc_say( "%s: %s succeeds but changes the earlier error", ref_name[ alg ], nm[ k ] ); if( err ) mc_err_free( &err ); return 1; }
	if( err ) mc_err_free( &err );
	if( k > 0 && k < 5 && memcmp( out, want, D ) ) { mc_say( "%s: %s with %s gives %s instead of %s", ref_name[ alg ], nm[ k ], given ? "an earlier error" : "no error reference", mc_hex( out, D ), mc_hex( want, D ) ); return 1; }
	return 0;
}
static int step( long s )
{
	char what[ 100 ];
	if( s <= -7 && s >= -18 ) return step_preset( ( -7 - s ) % 6, s >= -12 );
	if( s <= -20000 ) return reject( -20000 - s, 2, what );
	if( s >= 0 ) return step_update( s );
	if( s <= -2 && s >= -6 ) return step_largest( -2 - s );
	if( s == -1 ) return step_final();
	return reject( ( -1000 - s ) / 2, ( ( -1000 - s ) & 1 ) == 0, what );
}
int mc_eval( const long *v, int n )
{
	void *err = NULL; int bad = 0, r; long live = mc_live;
	alg = v[ 0 ]; ctx = NULL; fed = 0; done = 0;
	if( api[ alg ].init( &ctx, &err ) != 1 || err || ctx == NULL ) { mc_say( "initializing fails" ); return 1; }
	for( int i = 1; i < n && !bad; i++ ) bad = step( v[ i ] );
	if( !bad && !done ) bad = step_final();
	r = api[ alg ].free( &ctx, &err );
	if( !bad && ( r != 1 || err || ctx != NULL || mc_live != live ) ) { mc_say( "%s: free returns %d, reference %s, blocks %+ld", ref_name[ alg ], r, ctx ? "set" : "unset", mc_live - live ); bad = 1; }
	return bad;
}
void mc_init( void )
{
	uint8_t o[ 64 ]; void *c = NULL, *e = NULL;
	for( size_t i = 0; i < sizeof msg; i++ ) msg[ i ] = mc_pat( 4, i );
	for( int a = 0; a < NALG; a++ )
	{
		api[ a ].calc( msg, 300, o, 64, &e ); api[ a ].hmac( msg, 3, msg, 300, o, 64, &e );
		api[ a ].init( &c, &e ); api[ a ].update( c, msg, 9, &e ); api[ a ].final( c, o, 64, &e ); api[ a ].free( &c, &e ); c = NULL;
		/* the provider's one-time allocations of failing calls */
		api[ a ].calc( NULL, 5, o, 64, NULL );
	}
	if( e ) mc_err_free( &e );
	mc_err_live = 0;
	mc_amode = A_ARENA;
}
typedef struct { snap_t s; int fed, done, parent; long step; } st_t;
static st_t *st; static long nst;
static void path_of( long s, long *v, int *n )
{
	long t[ 1300 ]; int k = 0;
	for( ; s > 0; s = st[ s ].parent ) t[ k++ ] = st[ s ].step;
	v[ 0 ] = alg; *n = 1;
	while( k > 0 ) v[ (*n)++ ] = t[ --k ];
}
static void visit( long parent, long stp, int bad )
{
	snap_t s; long i, v[ 1400 ]; int n;
	mc_transitions++;
	if( bad ) { path_of( parent, v, &n ); v[ n++ ] = stp; mc_report( v, n ); return; }
	snap_take( &s );
	for( i = nst - 1; i >= 0; i-- )
		if( st[ i ].fed == fed && st[ i ].done == done && st[ i ].s.h0 == s.h0 && st[ i ].s.h1 == s.h1 ) { snap_free( &s ); return; }
	if( nst >= 20000 ) { snap_free( &s ); return; }
	st = realloc( st, ( nst + 1 ) * sizeof *st );
	st[ nst ].s = s; st[ nst ].fed = fed; st[ nst ].done = done; st[ nst ].parent = parent; st[ nst ].step = stp;
	nst++;
}
static void explore( int a )
{
	long B = ref_block[ a ], i, v[ 1400 ]; int n, R; void *err = NULL;
	long steps[] = { 0, 1, B / 8 * 7 - 1, B / 8 * 7, B - 1, B, B + 1, 2 * B + 3 }; long N = ( mc_thorough ? 5 : 3 ) * B + 3;
	alg = a; nst = 0; ctx = NULL; fed = 0; done = 0; R = nrej( a );
	if( api[ a ].init( &ctx, &err ) != 1 ) { v[ 0 ] = a; mc_say( "initializing fails" ); mc_report( v, 1 ); return; }
	visit( 0, 0, 0 );
	for( i = 0; i < nst; i++ )
	{
#define AT( stp ) do { snap_restore( &st[ i ].s ); fed = st[ i ].fed; done = st[ i ].done; path_of( i, v, &n ); v[ n ] = ( stp ); mc_cur( v, n + 1 ); mc_evals++; visit( i, ( stp ), step( stp ) ); } while( 0 )
		for( int k = 0; k < R; k++ )
		{
			AT( -1000L - 2 * k );
			if( st[ i ].fed < 2 || mc_thorough ) AT( -20000L - k );
			if( k < R_FIXED || ( k % 7 ) == 0 || mc_thorough ) AT( -1001L - 2 * k );
		}
		if( st[ i ].done ) continue;
		for( unsigned k = 0; k < sizeof steps / sizeof *steps; k++ ) if( st[ i ].fed + steps[ k ] <= N ) AT( steps[ k ] );
		AT( -1L );
	}
	mc_states += nst; mc_nontrivial += nst;
	snap_restore( &st[ 0 ].s );
	api[ a ].free( &ctx, NULL );
	/* plain execution of each state's path, with a rejected call before every step */
	for( i = 0; i < nst; i++ )
	{
		long w[ 1400 ]; int m = 1, k;
		path_of( i, v, &n );
		w[ 0 ] = a;
		for( k = 1; k < n; k++ ) { if( v[ k ] > -1000 ) { w[ m++ ] = -1000 - 2 * ( ( i * 7 + k * 13 ) % R ) - ( i & 1 ); } w[ m++ ] = v[ k ]; }
		if( m < 1300 ) { mc_cur( w, m ); if( mc_eval( w, m ) ) mc_report( w, m ); mc_traces++; if( ( i & ( i + 1 ) ) == 0 ) mc_sample( w, m > 12 ? 12 : m ); }
		snap_free( &st[ i ].s );
	}
}
void mc_enumerate( void )
{
	for( int a = 0; a < NALG; a++ ) if( mc_mine() ) explore( a );
	for( long a = 0; a < NALG; a++ )
		for( long k = -2; k >= -6; k-- ) for( long n = 0; n <= 2 * (long) ref_block[ a ]; n += n < 2 ? 1 : 53 ) { MC_DO( a, n, k ); MC_DO( a, 0, n, k ); }
	for( long a = 0; a < NALG; a++ )
		for( long k = -7; k >= -18; k-- ) for( long n = 0; n <= 2 * (long) ref_block[ a ]; n++ ) { MC_DO( a, n, k ); MC_DO( a, n, -20000 - n, k ); }
	/* valid calls set no error and a rejected call made twice or three times in a row; all ordered pairs of rejected calls */
	for( long a = 0; a < NALG; a++ )
		for( long k = 0; k < R_FIXED; k++ ) for( long l = 0; l < R_FIXED; l++ ) MC_DO( a, ref_block[ a ] + 5, -1000 - 2 * k, -1000 - 2 * l, 7 );
}
