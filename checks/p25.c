/* Every pattern of failing provider calls in every public call.
 * v = [ alg, op, x, y, error?, index, mode, index, mode, ... ]: the index-th call into the
 * provider, counted from the start of the call under test, fails: mode 0 returns 0 or NULL
 * without effect, 1 returns -1 without effect, 2 returns 0 after having had its effect.
 * Enumerated as a tree: a run without failures shows which provider calls there are,
 * each is failed in each mode, and so on from each failing run. */
#include "h.h"
#ifdef MC_OPENSSL
#include <openssl/crypto.h>
#include <openssl/err.h>
#endif
static uint8_t msg[ ( 2 << 20 ) + 64 ], key[ ( 1 << 20 ) + 64 ];
const char *mc_rule( void ) { return ""; }
static char plan[ 256 ];
enum { NFL = 4 }; static int fl_at[ NFL ], fl_mode[ NFL ], nfl, on; static long nseen, nfailed; static unsigned char kinds[ 4096 ];
enum { KPTR, KINT, KCLEAN };
typedef long (*fn6)( long, long, long, long, long, long );
static long provider( const char *name, fn6 *real, int kind, long a, long b, long c, long d, long e, long f )
{
	int m = -1; long r;
	if( *real == NULL ) *real = (fn6) dlsym( mc_dl, name );
	if( *real == NULL ) *real = (fn6) dlsym( RTLD_DEFAULT, name );
	if( on )
	{
		if( nseen < (long) sizeof kinds ) kinds[ nseen ] = kind;
		for( int i = 0; i < nfl; i++ ) if( fl_at[ i ] == nseen ) m = fl_mode[ i ];
		nseen++;
		if( m >= 0 ) nfailed++;
	}
	if( m == 0 && kind != KCLEAN ) return 0;
	if( m == 1 && kind != KCLEAN ) return -1;
	r = ( *real )( a, b, c, d, e, f );
	return m == 2 || m == 0 ? 0 : m == 1 ? -1 : r;
}
#define W( n, k ) long __wrap_##n( long a, long b, long c, long d, long e, long f ); long __wrap_##n( long a, long b, long c, long d, long e, long f ) { static fn6 r; return provider( #n, &r, k, a, b, c, d, e, f ); }
W( EVP_MD_CTX_new, KPTR ) W( EVP_md5, KPTR ) W( EVP_sha1, KPTR ) W( EVP_sha224, KPTR ) W( EVP_sha256, KPTR ) W( EVP_sha512, KPTR ) W( EVP_MD_fetch, KPTR ) W( EVP_get_digestbyname, KPTR )
W( EVP_DigestInit, KINT ) W( EVP_DigestInit_ex, KINT ) W( EVP_DigestInit_ex2, KINT ) W( EVP_DigestUpdate, KINT ) W( EVP_DigestFinal, KINT ) W( EVP_DigestFinal_ex, KINT ) W( EVP_Digest, KINT )
W( EVP_MD_CTX_copy, KINT ) W( EVP_MD_CTX_copy_ex, KINT ) W( EVP_MD_CTX_cleanup, KCLEAN ) W( EVP_MD_CTX_reset, KCLEAN )
W( MD5_Init, KINT ) W( MD5_Update, KINT ) W( MD5_Final, KINT ) W( SHA1_Init, KINT ) W( SHA1_Update, KINT ) W( SHA1_Final, KINT ) W( SHA224_Init, KINT ) W( SHA224_Update, KINT ) W( SHA224_Final, KINT )
W( SHA256_Init, KINT ) W( SHA256_Update, KINT ) W( SHA256_Final, KINT ) W( SHA512_Init, KINT ) W( SHA512_Update, KINT ) W( SHA512_Final, KINT )
W( MD5, KPTR ) W( SHA1, KPTR ) W( SHA224, KPTR ) W( SHA256, KPTR ) W( SHA512, KPTR )
static void settle( void )
{
#ifdef MC_OPENSSL
	OPENSSL_thread_stop();
#endif
}
enum { INIT, DINIT, CALC, HMAC, UPDATE, DUPDATE, FINAL, DFINAL, FREE, DFREE, SEQ, NOP };
static const char *opn[] = { "initialize", "older initialize", "one-shot digest", "one-shot HMAC", "update", "older update", "finalize", "older finalize", "free", "older free", "whole life cycle" };
/* one call under test; judges it; returns 1 on a violation. *ok: call returned success */
static int call( int a, int op, long x, long y, int want_err, int *ok )
{
	const api_t *f = &api[ a ]; void *ctx = NULL, *err = NULL, **e = want_err ? &err : NULL; uint8_t out[ 64 ], want[ 64 ]; int r = 1, bad = 0, post = 0; size_t D = ref_dlen[ a ];
	memset( out, 0xee, sizeof out );
	if( op >= UPDATE && op <= DFREE )
	{
		int save = on; on = 0;
		if( f->init( &ctx, NULL ) != 1 || f->update( ctx, msg, x, NULL ) != 1 ) { mc_say( "%s: set up fails", ref_name[ a ] ); return 1; }
		on = save;
	}
	nseen = nfailed = 0;
	switch( op )
	{
		case INIT: r = f->init( &ctx, e ); break;
		case DINIT: r = f->dinit( &ctx, e ); break;
		case CALC: r = f->calc( msg, x, out, D, e ); break;
		case HMAC: r = f->hmac( key, x, msg, y, out, D, e ); break;
		case UPDATE: r = f->update( ctx, msg + x, y, e ); break;
		case DUPDATE: r = f->dupdate( ctx, msg + x, y, e ); break;
		case FINAL: r = f->final( ctx, out, D, e ); break;
		case DFINAL: r = f->dfinal( ctx, out, D, e ); break;
		case FREE: r = f->free( &ctx, e ); break;
		case DFREE: r = f->dfree( &ctx, e ); break;
		case SEQ:
			r = f->init( &ctx, e );
			if( r == 1 ) r = f->update( ctx, msg, x, e );
			if( r == 1 ) r = f->update( ctx, msg + x, y, e );
			if( r == 1 ) r = f->final( ctx, out, D, e );
			on = 0;
			if( f->free( &ctx, NULL ) != 1 ) { mc_say( "%s: free fails", ref_name[ a ] ); return 1; }
			break;
	}
	on = 0;
	*ok = r == 1;
	if( nfailed == 0 && r != 1 ) { mc_say( "%s %s (%ld, %ld) without any failure returns %d", ref_name[ a ], opn[ op ], x, y, r ); bad = 1; }
	else if( nfailed > 0 && r != -1 ) { mc_say( "%s %s (%ld, %ld), provider failing at%s: returns %d", ref_name[ a ], opn[ op ], x, y, plan, r ); bad = 1; }
	else if( r != 1 && r != -1 ) { mc_say( "%s %s (%ld, %ld), provider failing at%s: returns %d", ref_name[ a ], opn[ op ], x, y, plan, r ); bad = 1; }
	else if( r == -1 && want_err && err == NULL ) { mc_say( "%s %s (%ld, %ld), provider failing at%s: no error set", ref_name[ a ], opn[ op ], x, y, plan ); bad = 1; }
	else if( r == 1 && err != NULL ) { mc_say( "%s %s (%ld, %ld), provider failing at%s: succeeds with an error set", ref_name[ a ], opn[ op ], x, y, plan ); bad = 1; }
	else if( r == -1 && ( op == INIT || op == DINIT ) && ctx != NULL ) { mc_say( "%s %s, provider failing at%s: leaves the reference set", ref_name[ a ], opn[ op ], plan ); bad = 1; ctx = NULL; }
	else if( r == 1 && ( op == INIT || op == DINIT ) && ctx == NULL ) { mc_say( "%s %s, provider failing at%s: succeeds without a context", ref_name[ a ], opn[ op ], plan ); bad = 1; }
	if( err ) mc_err_free( &err );
	if( !bad && r == 1 )
	{
		switch( op )
		{
			case INIT: case DINIT:
				post = f->update( ctx, msg, 77, NULL ) == 1 && f->final( ctx, out, D, NULL ) == 1; ref_digest( a, msg, 77, want ); break;
			case CALC: post = 1; ref_digest( a, msg, x, want ); break;
			case HMAC: post = 1; ref_hmac( a, key, x, msg, y, want ); break;
			case UPDATE: case DUPDATE: post = f->final( ctx, out, D, NULL ) == 1; ref_digest( a, msg, x + y, want ); break;
			case FINAL: case DFINAL: post = 1; ref_digest( a, msg, x, want ); break;
			case SEQ: post = 1; ref_digest( a, msg, x + y, want ); break;
			default: post = 1; memcpy( out, want, D ); break;
		}
		if( !post || memcmp( out, want, D ) ) { mc_say( "%s %s (%ld, %ld), provider failing at%s: reports success but the result is wrong", ref_name[ a ], opn[ op ], x, y, plan ); bad = 1; }
	}
	if( ctx != NULL && f->free( &ctx, NULL ) != 1 && !bad ) { mc_say( "%s: free fails", ref_name[ a ] ); bad = 1; }
	return bad;
}
int mc_eval( const long *v, int n )
{
	int a = v[ 0 ], op = v[ 1 ], bad, ok = 0; void *by = NULL; long live, xs = mc_err_live; uint8_t out[ 64 ], want[ 64 ]; size_t o = 0;
	on = 0; plan[ 0 ] = 0; nfl = 0;
	for( int i = 5; i + 1 < n && nfl < NFL; i += 2 ) { fl_at[ nfl ] = v[ i ]; fl_mode[ nfl++ ] = v[ i + 1 ]; o += snprintf( plan + o, sizeof plan - o, " call %ld (%s)", v[ i ], v[ i + 1 ] == 0 ? "returning 0" : v[ i + 1 ] == 1 ? "returning -1" : "returning 0 after its effect" ); }
	/* a bystander in mid-message */
	if( api[ a ].init( &by, NULL ) != 1 || api[ a ].update( by, msg, 100, NULL ) != 1 ) { mc_say( "set up fails" ); return 1; }
	settle(); live = mc_live;
	on = 1;
	bad = call( a, op, v[ 2 ], v[ 3 ], v[ 4 ], &ok );
	on = 0; settle();
	if( !bad && mc_live != live ) { mc_say( "%s %s (%ld, %ld), provider failing at%s: %+ld blocks still allocated", ref_name[ a ], opn[ op ], v[ 2 ], v[ 3 ], plan, mc_live - live ); bad = 1; }
	if( !bad && mc_err_live != xs ) { mc_say( "%s %s: an error object is leaked", ref_name[ a ], opn[ op ] ); bad = 1; }
	if( nfailed ) mc_nontrivial++;
	{
		/* the same again, with memory */
		long keep = nseen, keepf = nfailed; on = 0;
		if( !bad ) bad = call( a, op, v[ 2 ], v[ 3 ], v[ 4 ], &ok );
		nseen = keep; nfailed = keepf;
	}
	settle();
	if( !bad && mc_live != live ) { mc_say( "%s %s repeated after a failure: %+ld blocks still allocated", ref_name[ a ], opn[ op ], mc_live - live ); bad = 1; }
	if( api[ a ].update( by, msg + 100, 50, NULL ) != 1 || api[ a ].final( by, out, 64, NULL ) != 1 ) { if( !bad ) mc_say( "%s: another context is unusable after the failing call", ref_name[ a ] ); bad = 1; }
	ref_digest( a, msg, 150, want );
	if( !bad && memcmp( out, want, ref_dlen[ a ] ) ) { mc_say( "%s: another context is disturbed by the failing call", ref_name[ a ] ); bad = 1; }
	api[ a ].free( &by, NULL );
	return bad;
}
static void tree( long *v, int vn, int from, int left )
{
	long n, i; unsigned char k[ 512 ];
	mc_cur( v, vn ); mc_evals++;
	if( mc_eval( v, vn ) ) { mc_report( v, vn ); return; }
	if( mc_alloc_complaint ) { mc_say( "%s", mc_alloc_complaint ); mc_alloc_complaint = NULL; mc_report( v, vn ); return; }
	if( ( mc_evals & ( mc_evals - 1 ) ) == 0 ) mc_sample( v, vn );
	n = nseen; if( n > (long) sizeof k ) n = sizeof k;
	memcpy( k, kinds, n );
	if( left == 0 ) return;
	for( i = from; i < n; i++ ) for( int m = 0; m < ( k[ i ] == KPTR ? 1 : k[ i ] == KCLEAN ? 2 : 3 ); m++ ) { v[ vn ] = i; v[ vn + 1 ] = m; tree( v, vn + 2, i + 1, left - 1 ); }
}
void mc_init( void )
{
	for( size_t i = 0; i < sizeof msg; i++ ) msg[ i ] = mc_pat( 4, i );
	for( size_t i = 0; i < sizeof key; i++ ) key[ i ] = mc_pat( 7, i );
	for( int a = 0; a < NALG; a++ ) for( int op = 0; op < NOP; op++ ) { int ok; call( a, op, 5, 9, 1, &ok ); }
	settle();
}
void mc_enumerate( void )
{
	for( long a = 0; a < NALG; a++ )
	{
		long B = ref_block[ a ], D = mc_thorough ? 4 : 2;
#define TREE( op, x, y ) do { for( long e = 0; e < 2; e++ ) { long v[ 16 ] = { a, op, x, y, e }; if( mc_mine() ) tree( v, 5, 0, D ); } } while( 0 )
		TREE( INIT, 0, 0 ); TREE( DINIT, 0, 0 );
		long L[] = { 0, 1, B - 9, B - 1, B, B + 1, 3 * B + 7 };
		for( int i = 0; i < 7; i++ )
		{
			TREE( CALC, L[ i ], 0 );
			TREE( FINAL, L[ i ], 0 ); TREE( DFINAL, L[ i ], 0 ); TREE( FREE, L[ i ], 0 ); TREE( DFREE, L[ i ], 0 );
			for( int j = 0; j < 7; j++ ) { TREE( HMAC, L[ i ], L[ j ] ); TREE( UPDATE, L[ i ], L[ j ] ); TREE( DUPDATE, L[ i ], L[ j ] ); TREE( SEQ, L[ i ], L[ j ] ); }
		}
		TREE( HMAC, 4000, 4000 );
		/* long inputs: work done in pieces, or in temporary storage, may fail halfway */
		static const long H[] = { 255, 256, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 1 << 20 };
		for( int i = 0; i < (int) ( sizeof H / sizeof *H ); i++ )
		{
			if( H[ i ] > 65537 ) { TREE( CALC, H[ i ], 0 ); TREE( HMAC, H[ i ], H[ i ] ); TREE( UPDATE, 5, H[ i ] ); continue; }
			TREE( CALC, H[ i ], 0 ); TREE( HMAC, H[ i ], 9 ); TREE( HMAC, 9, H[ i ] ); TREE( HMAC, H[ i ], H[ i ] ); TREE( UPDATE, 0, H[ i ] ); TREE( UPDATE, 5, H[ i ] ); TREE( UPDATE, H[ i ], 5 );
			TREE( DUPDATE, 0, H[ i ] ); TREE( DUPDATE, 5, H[ i ] ); TREE( FINAL, H[ i ], 0 ); TREE( FREE, H[ i ], 0 ); TREE( SEQ, H[ i ], H[ i ] );
		}
	}
}
