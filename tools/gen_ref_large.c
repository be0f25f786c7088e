/* gcc -O3 -Imc tools/gen_ref_large.c mc/ref.c -lpthread -o /tmp/g && /tmp/g > mc/ref_large.h
 * with arguments "alg kind": prints that one row only */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "large.h"
static uint64_t st[ NALG ][ 2 ][ LCK ][ 8 ]; static uint8_t *u;
static void *job( void *x )
{
	int a = (long) x >> 1, k = (long) x & 1; ref_t r; uint64_t pos = 0; int c;
	ref_init( &r, a );
	if( k ) lpad( a, &r );
	for( c = 0; c < LCK; c++ )
	{
		while( pos < lck_base[ c ] - LBACK )
		{
			uint64_t n = lck_base[ c ] - LBACK - pos, o = pos % LUNIT;
			if( n > LUNIT - o ) n = LUNIT - o;
			ref_update( &r, u + o, n ); pos += n;
		}
		memcpy( st[ a ][ k ][ c ], r.h, 64 );
	}
	return NULL;
}
int main( int argc, char **argv )
{
	pthread_t t[ NALG * 2 ]; long i; int c, j;
	u = malloc( LUNIT ); lunit( u );
	if( argc > 2 ) { i = atol( argv[ 1 ] ) * 2 + atol( argv[ 2 ] ); job( (void *) i ); for( c = 0; c < LCK; c++ ) for( j = 0; j < 8; j++ ) printf( "%llx ", (unsigned long long) st[ i >> 1 ][ i & 1 ][ c ][ j ] ); printf( "\n" ); return 0; }
	for( i = 0; i < NALG * 2; i++ ) pthread_create( &t[ i ], NULL, job, (void *) i );
	for( i = 0; i < NALG * 2; i++ ) pthread_join( t[ i ], NULL );
	printf( "/* generated by tools/gen_ref_large.c */\nstatic const uint64_t lck_state[ NALG ][ 2 ][ LCK ][ 8 ] = {\n" );
	for( i = 0; i < NALG * 2; i++ )
	{
		if( i % 2 == 0 ) printf( "{\n" );
		printf( "{" );
		for( c = 0; c < LCK; c++ ) { printf( "{" ); for( j = 0; j < 8; j++ ) printf( "0x%llxULL,", (unsigned long long) st[ i >> 1 ][ i & 1 ][ c ][ j ] ); printf( "},\n" ); }
		printf( "},\n" );
		if( i % 2 ) printf( "},\n" );
	}
	printf( "};\n" );
}
