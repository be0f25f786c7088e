/* Writes mc/ref_zero.h: digests and HMACs of 2^32 + 13 zero bytes with the reference implementation. */
#include "../mc/ref.h"
#include <stdio.h>
#include <string.h>
#include <pthread.h>
static const uint64_t N = ( 1ULL << 32 ) + 13; static uint8_t zero[ 1 << 20 ], out[ 3 ][ NALG ][ 64 ];
static void zeros( ref_t *r, uint64_t n ) { while( n ) { uint64_t k = n < sizeof zero ? n : sizeof zero; ref_update( r, zero, k ); n -= k; } }
static void *run( void *p )
{
	int w = (long) p / NALG, a = (long) p % NALG; ref_t r; uint8_t b[ 128 ], d[ 64 ];
	if( w == 0 ) { ref_init( &r, a ); zeros( &r, N ); ref_final( &r, out[ 0 ][ a ] ); }
	if( w == 1 )
	{
		memset( b, 0x36, 128 ); for( int i = 0; i < 3; i++ ) b[ i ] ^= "key"[ i ];
		ref_init( &r, a ); ref_update( &r, b, ref_block[ a ] ); zeros( &r, N ); ref_final( &r, d );
		memset( b, 0x5c, 128 ); for( int i = 0; i < 3; i++ ) b[ i ] ^= "key"[ i ];
		ref_init( &r, a ); ref_update( &r, b, ref_block[ a ] ); ref_update( &r, d, ref_dlen[ a ] ); ref_final( &r, out[ 1 ][ a ] );
	}
	if( w == 2 ) { ref_init( &r, a ); zeros( &r, N ); ref_final( &r, d ); ref_hmac( a, d, ref_dlen[ a ], "data", 4, out[ 2 ][ a ] ); }
	return NULL;
}
int main( void )
{
	pthread_t t[ 15 ]; const char *nm[] = { "lz_digest", "lz_hmac", "lz_hkey" };
	for( long i = 0; i < 15; i++ ) pthread_create( &t[ i ], NULL, run, (void *) i );
	for( int i = 0; i < 15; i++ ) pthread_join( t[ i ], NULL );
	printf( "/* generated by tools/gen_ref_zero.c */\n" );
	for( int w = 0; w < 3; w++ )
	{
		printf( "static const uint8_t %s[ NALG ][ 64 ] = {\n", nm[ w ] );
		for( int a = 0; a < NALG; a++ ) { printf( "{" ); for( int i = 0; i < 64; i++ ) printf( "%d,", out[ w ][ a ][ i ] ); printf( "},\n" ); }
		printf( "};\n" );
	}
	return 0;
}
