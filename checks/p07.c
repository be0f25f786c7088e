/* Histories of several contexts at once.
 * v = [ nslots, alg0, alg1, (alg2), op, op, ... ], op = slot * 100 + k:
 *  k 0/1 initialize (new/older name), 2/3 free, 4/5 finalize, 10+i/20+i update of size i;
 *  900 + 2 * slot: one-shot digest, 901 + 2 * slot: one-shot HMAC (with that slot's digest)
 * Where the provider keeps no reference counts of its own (everything but OpenSSL EVP)
 * the graph of exact memory images is explored; with OpenSSL EVP all sequences up to a
 * depth are executed from scratch. */
#include "h.h"
const char *mc_rule( void ) { return ""; }
static uint8_t *msg[ 3 ], key[ 300 ];
enum { NS = 3, NSZ = 4 };
static int ns, alg[ NS ];
typedef struct { int st, fed; } slot_t;  /* st 0 unset, 1 live, 2 finalized */
typedef struct { slot_t s[ NS ]; } abs_t;
static void *ctx[ NS ]; static abs_t cur; static long base_live;
static long sizes( int a, int i ) { long B = ref_block[ a ]; long z[ NSZ ] = { B / 2 + 3, B, 0, 2 * B + 1 }; return z[ i ]; }
static int enabled( const abs_t *s, int op, long maxfed )
{
	int k = op % 100, i = op / 100;
	if( op >= 900 ) return 1;
	if( k <= 1 ) return s->s[ i ].st == 0;
	if( k <= 3 ) return 1;
	if( k <= 5 ) return s->s[ i ].st == 1;
	return s->s[ i ].st == 1 && s->s[ i ].fed + sizes( alg[ i ], k % 10 ) <= maxfed;
}
static int doop( int op )
{
	int k = op % 100, i = op / 100, r; void *err = NULL; uint8_t out[ 64 ], want[ 64 ]; const api_t *f;
	if( op >= 900 )
	{
		i = ( op - 900 ) / 2; f = &api[ alg[ i ] ];
		memset( out, 0xee, sizeof out );
		if( op & 1 ) { r = f->hmac( key, 90, msg[ i ] + 7, 200, out, 64, &err ); ref_hmac( alg[ i ], key, 90, msg[ i ] + 7, 200, want ); }
		else { r = f->calc( msg[ i ] + 3, 150, out, 64, &err ); ref_digest( alg[ i ], msg[ i ] + 3, 150, want ); }
		if( r != 1 || err || memcmp( out, want, ref_dlen[ alg[ i ] ] ) ) { mc_say( "%s one-shot between context operations: returns %d, %s", ref_name[ alg[ i ] ], r, r == 1 ? "wrong value" : "error" ); if( err ) mc_err_free( &err ); return 1; }
		return 0;
	}
	f = &api[ alg[ i ] ];
	if( k <= 1 )
	{
		r = ( k ? f->dinit : f->init )( &ctx[ i ], &err );
		if( r != 1 || err || ctx[ i ] == NULL ) { mc_say( "%s slot %d: initialize returns %d", ref_name[ alg[ i ] ], i, r ); goto bad; }
		for( int j = 0; j < ns; j++ ) if( j != i && ctx[ j ] == ctx[ i ] ) { mc_say( "%s: two live contexts are the same object", ref_name[ alg[ i ] ] ); goto bad; }
		cur.s[ i ].st = 1; cur.s[ i ].fed = 0;
	}
	else if( k <= 3 )
	{
		r = ( k == 3 ? f->dfree : f->free )( &ctx[ i ], &err );
		if( r != 1 || err || ctx[ i ] != NULL ) { mc_say( "%s slot %d: free of %s context returns %d, reference %s", ref_name[ alg[ i ] ], i, cur.s[ i ].st == 0 ? "an unset" : cur.s[ i ].st == 1 ? "a live" : "a finalized", r, ctx[ i ] ? "still set" : "unset" ); goto bad; }
		cur.s[ i ].st = 0; cur.s[ i ].fed = 0;
	}
	else if( k <= 5 )
	{
		memset( out, 0xee, sizeof out );
		r = ( k == 5 ? f->dfinal : f->final )( ctx[ i ], out, ref_dlen[ alg[ i ] ], &err );
		ref_digest( alg[ i ], msg[ i ], cur.s[ i ].fed, want );
		if( r != 1 || err ) { mc_say( "%s slot %d: finalize returns %d", ref_name[ alg[ i ] ], i, r ); goto bad; }
		if( memcmp( out, want, ref_dlen[ alg[ i ] ] ) ) { mc_say( "%s slot %d: digest of its %d bytes is %s instead of %s", ref_name[ alg[ i ] ], i, cur.s[ i ].fed, mc_hex( out, ref_dlen[ alg[ i ] ] ), mc_hex( want, ref_dlen[ alg[ i ] ] ) ); goto bad; }
		cur.s[ i ].st = 2;
	}
	else
	{
		long n = sizes( alg[ i ], k % 10 );
		r = ( k >= 20 ? f->dupdate : f->update )( ctx[ i ], msg[ i ] + cur.s[ i ].fed, n, &err );
		if( r != 1 || err ) { mc_say( "%s slot %d: update of %ld bytes after %d returns %d", ref_name[ alg[ i ] ], i, n, cur.s[ i ].fed, r ); goto bad; }
		cur.s[ i ].fed += n;
	}
	for( int j = 0, any = 0; j <= ns; j++ )
	{
		if( j < ns ) { any |= cur.s[ j ].st; continue; }
		if( !any && mc_live != base_live ) { mc_say( "all contexts are freed but %ld blocks are still allocated", mc_live - base_live ); return 1; }
	}
	if( mc_alloc_complaint ) { mc_say( "%s", mc_alloc_complaint ); mc_alloc_complaint = NULL; return 1; }
	return 0;
bad:
	if( err ) mc_err_free( &err );
	return 1;
}
static int setup( const long *v ) { ns = v[ 0 ]; for( int i = 0; i < ns; i++ ) alg[ i ] = v[ 1 + i ]; memset( &cur, 0, sizeof cur ); memset( ctx, 0, sizeof ctx ); return 1 + ns; }
static void cleanup( void ) { for( int i = 0; i < ns; i++ ) if( ctx[ i ] ) api[ alg[ i ] ].free( &ctx[ i ], NULL ); }
/* ------------------------------------------------ many contexts, long histories
 * [ -1, alg (5: mixed), K, order, how ]  K contexts live at once, fed in turn, finalized and freed in an order
 * [ -2, alg, N, how ]                    N histories one after the other
 * [ -3, alg, K, permutation ]            K contexts freed in the order of the permutation */
static int m_fail( int a, const char *what, int r, void **err ) { mc_say( "%s: %s returns %d%s", ref_name[ a ], what, r, *err ? " with an error" : "" ); if( *err ) mc_err_free( err ); return 1; }
static int many( const long *v )
{
	int K = v[ 2 ], bad = 0, r; void *err = NULL; uint8_t out[ 64 ], want[ 64 ]; long live = mc_live; static void **c; static int *ord, *fed;
	c = realloc( c, K * sizeof *c ); ord = realloc( ord, K * sizeof *ord ); fed = realloc( fed, K * sizeof *fed ); memset( c, 0, K * sizeof *c ); memset( fed, 0, K * sizeof *fed );
	if( v[ 0 ] == -3 ) { int left[ 8 ], nl = K; long q = v[ 3 ]; for( int i = 0; i < K; i++ ) left[ i ] = i; for( int i = 0; i < K; i++ ) { int j = q % nl; q /= nl; ord[ i ] = left[ j ]; memmove( left + j, left + j + 1, ( nl - j - 1 ) * sizeof( int ) ); nl--; } }
	else for( int i = 0; i < K; i++ ) ord[ i ] = v[ 3 ] == 0 ? i : v[ 3 ] == 1 ? K - 1 - i : v[ 3 ] == 2 ? ( 2 * i < K ? 2 * i : 2 * ( i - ( K + 1 ) / 2 ) + 1 ) : ( i + K / 2 ) % K;
#define ALG( i ) ( v[ 1 ] == NALG ? ( i ) % NALG : (int) v[ 1 ] )
#define MSG( i ) ( msg[ ( i ) % 3 ] + ( i ) % 1500 )
	for( int i = 0; i < K && !bad; i++ ) if( ( r = api[ ALG( i ) ].init( &c[ i ], &err ) ) != 1 || err || !c[ i ] ) bad = m_fail( ALG( i ), "initialize", r, &err );
	for( int round = 0; round < 3 && !bad; round++ ) for( int i = 0; i < K && !bad; i++ )
	{
		int n = round == 0 ? 40 + i % 50 : round == 1 ? 1 + i % 131 : 5;
		if( ( r = api[ ALG( i ) ].update( c[ i ], MSG( i ) + fed[ i ], n, &err ) ) != 1 || err ) bad = m_fail( ALG( i ), "update", r, &err );
		fed[ i ] += n;
	}
	for( int q = 0; q < K && !bad; q++ )
	{
		int i = ord[ q ], a = ALG( i );
		if( v[ 4 ] != 1 || q % 3 )   /* how 1: every third is freed unfinished */
		{
			memset( out, 0xee, 64 ); ref_digest( a, MSG( i ), fed[ i ], want );
			if( ( r = api[ a ].final( c[ i ], out, 64, &err ) ) != 1 || err ) bad = m_fail( a, "finalize", r, &err );
			else if( memcmp( out, want, ref_dlen[ a ] ) ) { mc_say( "%s: context %d of %d gives %s instead of %s", ref_name[ a ], i, K, mc_hex( out, ref_dlen[ a ] ), mc_hex( want, ref_dlen[ a ] ) ); bad = 1; }
		}
		if( v[ 4 ] == 2 ) continue;   /* how 2: all are finalized before the first is freed */
		if( !bad && ( ( r = api[ a ].free( &c[ i ], &err ) ) != 1 || err || c[ i ] ) ) bad = m_fail( a, "free", r, &err );
		if( !bad && v[ 4 ] == 3 )     /* how 3: a new one takes its place */
		{
			if( ( r = api[ a ].init( &c[ i ], &err ) ) != 1 || err || ( r = api[ a ].update( c[ i ], MSG( i ), 77, &err ) ) != 1 || err ) bad = m_fail( a, "starting again", r, &err );
			fed[ i ] = 77;
		}
	}
	for( int q = 0; q < K; q++ )
	{
		int i = ord[ K - 1 - q ], a = ALG( i );
		if( !bad && v[ 4 ] == 3 )
		{
			ref_digest( a, MSG( i ), 77, want );
			if( ( r = api[ a ].final( c[ i ], out, 64, &err ) ) != 1 || err || memcmp( out, want, ref_dlen[ a ] ) ) bad = m_fail( a, "finalize of the second context (or its digest is wrong)", r, &err );
		}
		if( c[ i ] && ( ( r = api[ a ].free( &c[ i ], &err ) ) != 1 || err || c[ i ] ) && !bad ) bad = m_fail( a, "free", r, &err );
	}
	if( !bad && mc_live != live ) { mc_say( "all %d contexts are freed but %ld blocks are still allocated", K, mc_live - live ); bad = 1; }
	if( !bad && mc_alloc_complaint ) { mc_say( "%s", mc_alloc_complaint ); bad = 1; }
	mc_alloc_complaint = NULL;
	return bad;
}
static int repeat( const long *v )
{
	int a = v[ 1 ], r, bad = 0; const api_t *f = &api[ a ]; void *c = NULL, *err = NULL; uint8_t out[ 64 ], want[ 3 ][ 64 ]; long live = mc_live;
	for( int i = 0; i < 3; i++ ) { if( v[ 3 ] == 3 ) ref_hmac( a, key, 60 + 30 * i, msg[ i ], 100, want[ i ] ); else ref_digest( a, msg[ i ], 100 + i, want[ i ] ); }
	for( long k = 0; k < v[ 2 ] && !bad; k++ )
	{
		int i = k % 3, cmp = 1;
		memset( out, 0xee, ref_dlen[ a ] );
		switch( v[ 3 ] )
		{
			case 0: ( r = f->init( &c, &err ) ) == 1 && ( r = f->update( c, msg[ i ], 100 + i, &err ) ) == 1 && ( r = f->final( c, out, 64, &err ) ) == 1 && ( r = f->free( &c, &err ) ) == 1; break;
			case 1: ( r = f->dinit( &c, &err ) ) == 1 && ( r = f->dupdate( c, msg[ i ], 100 + i, &err ) ) == 1 && ( r = f->dfinal( c, out, 64, &err ) ) == 1 && ( r = f->dfree( &c, &err ) ) == 1; break;
			case 2: r = f->calc( msg[ i ], 100 + i, out, 64, &err ); break;
			case 3: r = f->hmac( key, 60 + 30 * i, msg[ i ], 100, out, 64, &err ); break;
			case 4: ( r = f->init( &c, &err ) ) == 1 && ( r = f->free( &c, &err ) ) == 1; cmp = k == v[ 2 ] - 1 ? 2 : 0; break;
			default: r = f->free( &c, &err ); cmp = k == v[ 2 ] - 1 ? 2 : 0; break;
		}
		if( cmp == 2 && r == 1 ) r = f->calc( msg[ i ], 100 + i, out, 64, &err );
		if( r != 1 || err || c ) bad = m_fail( a, "one of very many histories", r, &err );
		else if( cmp && memcmp( out, want[ i ], ref_dlen[ a ] ) ) { mc_say( "%s: history %ld gives %s instead of %s", ref_name[ a ], k, mc_hex( out, ref_dlen[ a ] ), mc_hex( want[ i ], ref_dlen[ a ] ) ); bad = 1; }
	}
	if( c ) f->free( &c, NULL );
	if( !bad && mc_live != live ) { mc_say( "%ld histories leave %ld blocks allocated", v[ 2 ], mc_live - live ); bad = 1; }
	return bad;
}
int mc_eval( const long *v, int n )
{
	int i, bad = 0;
	if( v[ 0 ] < 0 ) { mc_nontrivial++; return v[ 0 ] == -2 ? repeat( v ) : many( v ); }
	i = setup( v );
	base_live = mc_live;
	for( ; i < n && !bad; i++ ) bad = doop( v[ i ] );
	for( i = 0; i < ns && !bad; i++ ) { if( cur.s[ i ].st == 1 ) bad = doop( i * 100 + 4 ); if( !bad ) bad = doop( i * 100 + 2 ); }
	if( bad ) cleanup();
	mc_live = bad ? base_live : mc_live;
	return bad;
}
void mc_init( void )
{
	uint8_t o[ 64 ];
	for( int p = 0; p < 3; p++ ) { msg[ p ] = malloc( 4096 ); for( int i = 0; i < 4096; i++ ) msg[ p ][ i ] = mc_pat( p == 0 ? 4 : p == 1 ? 7 : 2, i ); }
	memset( key, 0x4b, sizeof key );
	for( int a = 0; a < NALG; a++ ) { void *c = NULL; api[ a ].calc( key, 3, o, 64, NULL ); api[ a ].hmac( key, 200, key, 3, o, 64, NULL ); api[ a ].init( &c, NULL ); api[ a ].free( &c, NULL ); }
	mc_err_live = 0;
}
/* ------------------------------------------------ graph of memory images */
typedef struct { snap_t s; abs_t a; void *c[ NS ]; int parent, op; } st_t;
static st_t *st; static long nst, cst; static int *nxt; enum { HB = 1 << 20 }; static int *head;
static int ops[ 256 ], nops;
static long maxfed;
static int path_of( long s, long *v, const long *pre, int npre )
{
	int t[ 1300 ], k = 0, n = npre;
	for( ; s > 0; s = st[ s ].parent ) t[ k++ ] = st[ s ].op;
	memcpy( v, pre, npre * sizeof( long ) );
	while( k > 0 ) v[ n++ ] = t[ --k ];
	return n;
}
static uint64_t habs( const snap_t *s ) { uint64_t h = s->h0; for( int i = 0; i < ns; i++ ) h = h * 31 + cur.s[ i ].st * 1000003 + cur.s[ i ].fed + ( (uintptr_t) ctx[ i ] >> 4 ) * 7; return h * 0x9e3779b97f4a7c15ULL >> 44; }
static void visit( int parent, int op, long cap )
{
	snap_t s; uint64_t h; int i;
	snap_take( &s );
	h = habs( &s ) & ( HB - 1 );
	for( i = head[ h ]; i >= 0; i = nxt[ i ] )
		if( st[ i ].s.h0 == s.h0 && st[ i ].s.h1 == s.h1 && !memcmp( &st[ i ].a, &cur, sizeof cur ) && !memcmp( st[ i ].c, ctx, sizeof ctx ) ) { snap_free( &s ); return; }
	if( nst >= cap ) { snap_free( &s ); return; }
	if( nst == cst ) { cst = cst ? 2 * cst : 8192; st = realloc( st, cst * sizeof *st ); nxt = realloc( nxt, cst * sizeof *nxt ); }
	st[ nst ].s = s; st[ nst ].a = cur; memcpy( st[ nst ].c, ctx, sizeof ctx ); st[ nst ].parent = parent; st[ nst ].op = op;
	nxt[ nst ] = head[ h ]; head[ h ] = nst++;
}
static void graph( const long *pre, int npre, long cap )
{
	long v[ 1400 ]; int n; long i;
	setup( pre ); base_live = 0;
	mc_amode = A_ARENA; mc_live = 0;
	memset( head, -1, HB * sizeof *head ); nst = 0;
	visit( 0, 0, cap );
	for( i = 0; i < nst; i++ )
	{
		n = path_of( i, v, pre, npre );
		for( int k = 0; k < nops; k++ )
		{
			if( !enabled( &st[ i ].a, ops[ k ], maxfed ) ) continue;
			snap_restore( &st[ i ].s ); cur = st[ i ].a; memcpy( ctx, st[ i ].c, sizeof ctx );
			v[ n ] = ops[ k ]; mc_cur( v, n + 1 );
			mc_transitions++;
			if( doop( ops[ k ] ) ) { mc_report( v, n + 1 ); continue; }
			visit( i, ops[ k ], cap );
		}
		if( ( i & ( i - 1 ) ) == 0 ) mc_sample( v, n > 14 ? 14 : n );
	}
	mc_states += nst; mc_nontrivial += nst;
	snap_restore( &st[ 0 ].s );
	mc_amode = A_COUNT; mc_live = 0;
	for( i = 0; i < nst; i++ ) { n = path_of( i, v, pre, npre ); mc_cur( v, n ); if( mc_eval( v, n ) ) mc_report( v, n ); else mc_traces++; snap_free( &st[ i ].s ); }
}
/* ------------------------------------------------ all sequences up to a depth */
static void seq( long *v, int npre, int n, int depth, const abs_t *a )
{
	int k;
	for( k = 0; k < nops; k++ )
	{
		abs_t b = *a; int op = ops[ k ], i = op / 100, kk = op % 100;
		if( !enabled( a, op, maxfed ) ) continue;
		if( op < 900 )
		{
			if( kk <= 1 ) { b.s[ i ].st = 1; b.s[ i ].fed = 0; }
			else if( kk <= 3 ) { if( a->s[ i ].st == 0 && n > npre && v[ n - 1 ] == op ) continue; b.s[ i ].st = 0; b.s[ i ].fed = 0; }
			else if( kk <= 5 ) b.s[ i ].st = 2;
			else b.s[ i ].fed += sizes( alg[ i ], kk % 10 );
		}
		v[ n ] = op;
		if( n - npre + 1 == 2 && !mc_mine() ) continue;
		if( n - npre + 1 < depth ) seq( v, npre, n + 1, depth, &b );
		else
		{
			mc_cur( v, n + 1 ); mc_evals++; mc_transitions += depth; mc_traces++;
			if( mc_eval( v, n + 1 ) ) mc_report( v, n + 1 );
			setup( v );
			if( ( mc_evals & ( mc_evals - 1 ) ) == 0 ) mc_sample( v, n + 1 );
		}
	}
	mc_states++;
}
void mc_enumerate( void )
{
	int stateless = mc_tag[ 0 ] == 'E' && mc_tag[ 1 ] != '0', T = mc_thorough;
	head = malloc( HB * sizeof *head );
	for( long a = 0; a < NALG; a++ ) for( long b = a; b < NALG; b++ )
	{
		long pre[ 4 ] = { 2, a, b };
		nops = 0;
		if( !stateless )
		{
			for( int s = 0; s < 2; s++ ) { for( int k = 0; k < 6; k++ ) ops[ nops++ ] = s * 100 + k; for( int z = 0; z < NSZ; z++ ) { ops[ nops++ ] = s * 100 + 10 + z; if( z < 2 || T ) ops[ nops++ ] = s * 100 + 20 + z; } ops[ nops++ ] = 900 + 2 * s; ops[ nops++ ] = 901 + 2 * s; }
			maxfed = ( T ? 4 : 2 ) * ref_block[ b ] + ( a == b ? 10 : ref_block[ a ] == ref_block[ b ] ? 10 : 0 );
			if( mc_mine() ) graph( pre, 3, T ? 400000 : 60000 );
		}
		else
		{
			long v[ 64 ]; abs_t z; memset( &z, 0, sizeof z );
			memcpy( v, pre, sizeof pre ); setup( v );
			for( int s = 0; s < 2; s++ ) { ops[ nops++ ] = s * 100 + ( b & 1 ); ops[ nops++ ] = s * 100 + 2 + ( a & 1 ); ops[ nops++ ] = s * 100 + 4 + ( b & 1 ); ops[ nops++ ] = s * 100 + 10; ops[ nops++ ] = s * 100 + 20 + 1; ops[ nops++ ] = 901 + 2 * s; }
			ops[ nops++ ] = 900; ops[ nops++ ] = 0; ops[ nops++ ] = 105;
			maxfed = 1000;
			seq( v, 3, 3, T ? 7 : 5, &z );
		}
	}
	for( long a = 0; a <= NALG; a++ )
	{
		long f = 1;
		for( long K = 1; K <= ( T ? 140 : 70 ); K++ ) for( long o = 0; o < 4; o++ ) for( long h = 0; h < 4; h++ ) MC_DO( -1, a, K, o, h );
		for( long h = 0; h < 4; h++ ) { MC_DO( -1, a, 257, h, h ); MC_DO( -1, a, 1025, h, h ); MC_DO( -1, a, 4100, h, h ); }
		for( long K = 2; K <= ( T ? 7 : 6 ); K++ ) { f *= K; for( long q = 0; q < f; q++ ) for( long h = 0; h < 4; h++ ) MC_DO( -3, a, K, q, h ); }
		if( a < NALG ) for( long h = 0; h < 6; h++ ) { MC_DO( -2, a, 300, h ); MC_DO( -2, a, T ? 1100000 : 70000, h ); }
	}
	/* three contexts */
	if( !stateless ) for( long a = 0; a < NALG; a++ )
	{
		long pre[ 4 ] = { 3, a, ( a + 1 ) % NALG, a };
		nops = 0;
		for( int s = 0; s < 3; s++ ) { ops[ nops++ ] = s * 100 + ( s & 1 ); ops[ nops++ ] = s * 100 + 2; ops[ nops++ ] = s * 100 + 5; ops[ nops++ ] = s * 100 + 10; if( s == 0 || T ) ops[ nops++ ] = s * 100 + 11; }
		ops[ nops++ ] = 901; ops[ nops++ ] = 902;
		maxfed = ref_block[ a ] + ( T ? 40 : 10 );
		if( mc_mine() ) graph( pre, 4, T ? 400000 : 60000 );
	}
}
