/* What memory do the calls touch?  Message and key lie in read-only memory that
 * ends (or begins) at an inaccessible page, outputs likewise in writable memory;
 * the bytes around the granted output are compared.  The same scenarios run on
 * builds with the address, undefined behaviour and memory sanitizers.
 * v = [ alg, op, x, y, z, extra, place ]
 *  op 0 one-shot digest of x bytes; op 1 HMAC key x message y; op 2 context: updates of x, y, z bytes
 *  op 3 the same through the older names; op 4 HMAC with the key right behind the message's guard (x, y)
 *  place bit 0: inputs at the start of their page, else at the end; bit 1: same for the output;
 *  bits 2..5: shift (0..15) that an input keeps from the edge; */
#include "h.h"
#include <fcntl.h>
const char *mc_rule( void ) { return ""; }
enum { PG = 4096, NP = 260 };
typedef struct { uint8_t *w, *r; } reg_t;   /* writable alias; guarded view */
static reg_t in, ke, ou;
static void region( reg_t *g, int prot )
{
	int fd = memfd_create( "mc", 0 ); uint8_t *base;
	if( ftruncate( fd, NP * PG ) ) _exit( 9 );
	g->w = mmap( NULL, NP * PG, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
	base = mmap( NULL, ( NP + 2 ) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
	g->r = mmap( base + PG, NP * PG, prot, MAP_SHARED | MAP_FIXED, fd, 0 );
	if( g->r == MAP_FAILED ) _exit( 9 );
}
void mc_init( void )
{
	region( &in, PROT_READ ); region( &ke, PROT_READ ); region( &ou, PROT_READ | PROT_WRITE );
	for( int i = 0; i < NP * PG; i++ ) { in.w[ i ] = mc_pat( 4, i ); ke.w[ i ] = mc_pat( 7, i ); ou.w[ i ] = mc_pat( 6, i ) ^ 0xa5; }
}
static const uint8_t *at( reg_t *g, size_t n, int start, int shift ) { return start ? g->r + shift : g->r + NP * PG - n - shift; }
int mc_eval( const long *v, int nv )
{
	static uint8_t shadow[ NP * PG ]; int a = v[ 0 ], op = v[ 1 ], start = v[ 6 ] & 1, ostart = v[ 6 ] >> 1 & 1, shift = v[ 6 ] >> 2 & 15, r = 1; size_t D = ref_dlen[ a ], on = D + v[ 5 ];
	size_t x = v[ 2 ], y = v[ 3 ], z = v[ 4 ]; uint8_t *out = (uint8_t *) at( &ou, on, ostart, 0 ), want[ 64 ]; void *err = NULL, *ctx = NULL; const uint8_t *m, *k; const api_t *f = &api[ a ]; (void) nv;
	size_t oo = out - ou.r, lo = oo > 200 ? oo - 200 : 0, hi = oo + on + 200 < NP * PG ? oo + on + 200 : NP * PG;
	for( size_t i = lo; i < hi; i++ ) ou.w[ i ] = mc_pat( 6, i ) ^ 0xa5;
	memcpy( shadow + lo, ou.w + lo, hi - lo );
	mc_nontrivial += x + y + z > 0;
	switch( op )
	{
		case 0: m = at( &in, x, start, shift ); ref_digest( a, m, x, want ); r = f->calc( m, x, out, on, &err ); break;
		case 1: k = at( &ke, x, start, shift ); m = at( &in, y, start, shift ); ref_hmac( a, k, x, m, y, want ); r = f->hmac( k, x, m, y, out, on, &err ); break;
		case 4: k = at( &ke, x, !start, shift ); m = at( &in, y, start, 0 ); ref_hmac( a, k, x, m, y, want ); r = f->hmac( k, x, m, y, out, on, &err ); break;
		case 2: case 3:
		{
			ref_t rf; size_t c[ 3 ] = { x, y, z };
			ref_init( &rf, a );
			r = ( op == 2 ? f->init : f->dinit )( &ctx, &err );
			for( int i = 0; i < 3 && r == 1; i++ )
			{
				m = at( &in, c[ i ], start, shift );
				ref_update( &rf, m, c[ i ] );
				r = ( op == 2 ? f->update : f->dupdate )( ctx, m, c[ i ], &err );
			}
			if( r == 1 ) r = ( op == 2 ? f->final : f->dfinal )( ctx, out, on, &err );
			ref_final( &rf, want );
			if( r == 1 ) r = ( op == 2 ? f->free : f->dfree )( &ctx, &err );
		}
	}
	if( err ) mc_err_free( &err );
	if( r != 1 ) { mc_say( "%s op %d (%zu, %zu, %zu): returns %d", ref_name[ a ], op, x, y, z, r ); return 1; }
	memcpy( shadow + oo, want, D );
	for( size_t i = lo; i < hi; i++ )
		if( ou.w[ i ] != shadow[ i ] )
		{
			if( i >= oo && i < oo + D ) mc_say( "%s op %d (%zu, %zu, %zu): wrong result", ref_name[ a ], op, x, y, z );
			else mc_say( "%s op %d (%zu, %zu, %zu), output size %zu: byte %ld of the output buffer is changed (the digest has %zu bytes)", ref_name[ a ], op, x, y, z, on, (long) i - (long) oo, D );
			return 1;
		}
	return 0;
}
void mc_enumerate( void )
{
	int S = strstr( mc_tag, "san" ) != NULL, T = mc_thorough;
	for( long a = 0; a < NALG; a++ )
	{
		long B = ref_block[ a ], x, y, z, p;
		for( x = 0; x <= ( T ? 6 : 4 ) * B + 3; x++ ) for( p = 0; p < 64; p++ ) { if( S && !T && ( p >> 2 ) % 5 ) continue; MC_DO( a, 0, x, 0, 0, 0, p ); }
		for( x = 4000; x <= 4200; x++ ) for( p = 0; p < 4; p++ ) MC_DO( a, 0, x, 0, 0, 0, p );
		/* long inputs, and output buffers much longer than the digest */
		static const long L[] = { 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 262147, 1 << 20, ( 1 << 20 ) + 1 };
		for( int i = 0; i < (int) ( sizeof L / sizeof *L ); i++ ) for( p = 0; p < 4; p++ )
		{
			x = L[ i ];
			MC_DO( a, 0, x, 0, 0, 0, p ); MC_DO( a, 1, x, 9, 0, 0, p ); MC_DO( a, 1, 9, x, 0, 0, p ); MC_DO( a, 1, x, x, 0, 0, p ); MC_DO( a, 4, x, x, 0, 0, p );
			MC_DO( a, 2, 0, x, B - 1, 0, p ); MC_DO( a, 2, 7, x, x, 0, p ); MC_DO( a, 3, B, x, 3, 0, p );
			MC_DO( a, 0, 3 * B + 1, 0, 0, x, p ); MC_DO( a, 1, B + 1, 5, 0, x, p ); MC_DO( a, 2, 5, B, 9, x, p ); MC_DO( a, 3, 5, B, 9, x, p );
			if( x < 5000 || T ) for( y = 0; y < 64; y++ ) MC_DO( a, 1, x, x + 1, 0, 0, y );
		}
		for( x = 0; x <= 300; x++ ) for( y = 0; y < 3; y++ ) for( p = 0; p < 4; p++ ) { MC_DO( a, 0, y * B, 0, 0, x, p ); MC_DO( a, 2, y * B, 5, 0, x, p ); MC_DO( a, 1, 7 + y * B, 5, 0, x, p ); }
		for( x = 0; x <= 2 * B + 5; x++ ) for( y = 0; y <= 2 * B + 5; y += S && !T ? 3 : 1 ) for( p = 0; p < ( S && !T ? 1 : 4 ); p++ ) MC_DO( a, 1, x, y, 0, 0, p );
		for( x = 0; x <= 2 * B + 5; x++ ) for( y = 0; y < 4; y++ ) for( p = 0; p < 64; p += 4 ) MC_DO( a, 4, x, y * ( B - 1 ), 0, 0, p );
		long step = T ? ( S ? 2 : 1 ) : ( S ? B / 8 - 1 : B / 16 - 1 );
		for( x = 0; x <= B + 2; x++ ) for( y = 0; y <= 2 * B + 2; y += step ) for( z = 0; z <= B + 2; z += step ) for( p = 0; p < 2; p++ ) MC_DO( a, 2 + ( x & 1 ), x, y, z, 0, p );
	}
}
