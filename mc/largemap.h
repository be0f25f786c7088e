/* The long message of mc/large.h as memory (one 2 MiB unit mapped again and again) and its reference digests. */
#ifndef MC_LARGEMAP_H
#define MC_LARGEMAP_H
#include "h.h"
#include "large.h"
#include "ref_large.h"
static uint8_t *big; static uint64_t bign;
static void large_map( uint64_t n )
{
	uint8_t *u; int fd = memfd_create( "unit", 0 );
	if( fd < 0 || ftruncate( fd, LUNIT ) ) { perror( "memfd" ); _exit( 2 ); }
	u = mmap( NULL, LUNIT, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ); lunit( u );
	bign = n + 2 * LUNIT;
	big = mmap( NULL, bign, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	if( big == MAP_FAILED ) { perror( "mmap" ); _exit( 2 ); }
	for( uint64_t o = 0; o < bign; o += LUNIT ) if( mmap( big + o, LUNIT, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) { perror( "mmap" ); _exit( 2 ); }
}
/* n bytes of the message at position pos; beyond the mapped part the pattern goes on the same */
static const uint8_t *part( uint64_t pos, uint64_t n ) { return big + (size_t) ( pos + n <= bign ? pos : pos % LUNIT ); }
/* reference for the first L bytes, kind 0 plain, 1 inner hash of HMAC */
static void want_of( int a, int k, uint64_t L, uint8_t *out )
{
	ref_t r; int c; uint64_t at;
	for( c = LCK - 1; c > 0 && lck_base[ c ] - LBACK > L; c-- );
	at = lck_base[ c ] - LBACK;
	memset( &r, 0, sizeof r ); r.alg = a; memcpy( r.h, lck_state[ a ][ k ][ c ], 64 ); r.n = at + ( k ? ref_block[ a ] : 0 );
	for( uint64_t pos = at; pos < L; ) { uint64_t n = L - pos; if( n > 1 << 20 ) n = 1 << 20; ref_update( &r, part( pos, n ), n ); pos += n; }
	ref_final( &r, out );
}
#endif
