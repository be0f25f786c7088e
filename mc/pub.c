/* The library as a program sees it that includes its public header and links with
 * it; the same text is built as C and as C++.
 * With MC_TABLE: wrappers around the loaded library that pass every argument through
 * the public prototypes, so that what those cut off is cut off here too. */
#include <libhmac.h>
#if defined( MC_TABLE )
#include "h.h"
#define WRAP( A, I ) \
static struct { __typeof__( &libhmac_ ## A ## _context_initialize ) init; __typeof__( &libhmac_ ## A ## _context_free ) free; \
                __typeof__( &libhmac_ ## A ## _context_update ) update; __typeof__( &libhmac_ ## A ## _context_finalize ) final; \
                __typeof__( &libhmac_ ## A ## _calculate ) calc; __typeof__( &libhmac_ ## A ## _calculate_hmac ) hmac; \
                __typeof__( &libhmac_ ## A ## _update ) dupdate; __typeof__( &libhmac_ ## A ## _finalize ) dfinal; } r_ ## A; \
static int A ## _update( void *c, const uint8_t *p, size_t n, void **e ) { return r_ ## A.update( (libhmac_ ## A ## _context_t *) c, p, n, (libhmac_error_t **) e ); } \
static int A ## _final( void *c, uint8_t *o, size_t n, void **e ) { return r_ ## A.final( (libhmac_ ## A ## _context_t *) c, o, n, (libhmac_error_t **) e ); } \
static int A ## _dupdate( void *c, const uint8_t *p, size_t n, void **e ) { return r_ ## A.dupdate( (libhmac_ ## A ## _context_t *) c, p, n, (libhmac_error_t **) e ); } \
static int A ## _dfinal( void *c, uint8_t *o, size_t n, void **e ) { return r_ ## A.dfinal( (libhmac_ ## A ## _context_t *) c, o, n, (libhmac_error_t **) e ); } \
static int A ## _calc( const uint8_t *p, size_t n, uint8_t *o, size_t on, void **e ) { return r_ ## A.calc( p, n, o, on, (libhmac_error_t **) e ); } \
static int A ## _hmac( const uint8_t *k, size_t kn, const uint8_t *p, size_t n, uint8_t *o, size_t on, void **e ) { return r_ ## A.hmac( k, kn, p, n, o, on, (libhmac_error_t **) e ); } \
static void A ## _wrap( void ) { \
	r_ ## A.update = (__typeof__( r_ ## A.update )) api[ I ].update; api[ I ].update = A ## _update; \
	r_ ## A.final = (__typeof__( r_ ## A.final )) api[ I ].final; api[ I ].final = A ## _final; \
	r_ ## A.dupdate = (__typeof__( r_ ## A.dupdate )) api[ I ].dupdate; api[ I ].dupdate = A ## _dupdate; \
	r_ ## A.dfinal = (__typeof__( r_ ## A.dfinal )) api[ I ].dfinal; api[ I ].dfinal = A ## _dfinal; \
	r_ ## A.calc = (__typeof__( r_ ## A.calc )) api[ I ].calc; api[ I ].calc = A ## _calc; \
	r_ ## A.hmac = (__typeof__( r_ ## A.hmac )) api[ I ].hmac; api[ I ].hmac = A ## _hmac; }
WRAP( md5, MD5 ) WRAP( sha1, SHA1 ) WRAP( sha224, SHA224 ) WRAP( sha256, SHA256 ) WRAP( sha512, SHA512 )
void mc_through_header( void ) { md5_wrap(); sha1_wrap(); sha224_wrap(); sha256_wrap(); sha512_wrap(); }
#else
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#if defined( __cplusplus )
extern "C" {
#endif
#include "ref.h"
#if defined( __cplusplus )
}
#endif
static long runs;
static void bad( const char *alg, const char *what, long a, long b ) { printf( "BAD %s: %s (%ld, %ld)\n", alg, what, a, b ); exit( 1 ); }
#define LEN 260
static uint8_t msg[ LEN ], key[ LEN ];
#define PUB( A, U, I ) \
static void A ## _all( void ) \
{ \
	uint8_t want[ 64 ]; libhmac_error_t *e = NULL; libhmac_ ## A ## _context_t *c = NULL; \
	if( LIBHMAC_ ## U ## _HASH_SIZE != ref_dlen[ I ] ) bad( #A, "the published size of the digest is not its size", LIBHMAC_ ## U ## _HASH_SIZE, ref_dlen[ I ] ); \
	for( long n = 0; n < LEN; n++ ) for( int way = 0; way < 4; way++ ) \
	{ \
		uint8_t out[ LIBHMAC_ ## U ## _HASH_SIZE ]; long cut = n / 3; int r; memset( out, 0, sizeof out ); runs++; \
		if( way == 3 ) { ref_hmac( I, key, n, msg, LEN - n, want ); r = libhmac_ ## A ## _calculate_hmac( key, n, msg, LEN - n, out, sizeof out, &e ); } \
		else ref_digest( I, msg, n, want ); \
		if( way == 0 ) r = libhmac_ ## A ## _calculate( msg, n, out, sizeof out, &e ); \
		if( way == 1 ) r = libhmac_ ## A ## _context_initialize( &c, &e ) == 1 && libhmac_ ## A ## _context_update( c, msg, cut, &e ) == 1 && libhmac_ ## A ## _context_update( c, msg + cut, n - cut, &e ) == 1 \
		                 && libhmac_ ## A ## _context_finalize( c, out, sizeof out, &e ) == 1 && libhmac_ ## A ## _context_free( &c, &e ) == 1; \
		if( way == 2 ) r = libhmac_ ## A ## _initialize( &c, &e ) == 1 && libhmac_ ## A ## _update( c, msg, cut, &e ) == 1 && libhmac_ ## A ## _update( c, msg + cut, n - cut, &e ) == 1 \
		                 && libhmac_ ## A ## _finalize( c, out, sizeof out, &e ) == 1 && libhmac_ ## A ## _free( &c, &e ) == 1; \
		if( r != 1 || e != NULL || c != NULL ) bad( #A, "a valid call fails", n, way ); \
		if( memcmp( out, want, sizeof out ) ) bad( #A, "the result is not the standard's", n, way ); \
		if( libhmac_ ## A ## _calculate( msg, n, out, sizeof out - 1, &e ) != -1 || e == NULL ) bad( #A, "an output too small is not refused", n, way ); \
		libhmac_error_free( &e ); \
		if( e != NULL ) bad( #A, "freeing an error leaves the reference", n, way ); \
	} \
}
PUB( md5, MD5, MD5 ) PUB( sha1, SHA1, SHA1 ) PUB( sha224, SHA224, SHA224 ) PUB( sha256, SHA256, SHA256 ) PUB( sha512, SHA512, SHA512 )
int main( void )
{
	char text[ 256 ]; libhmac_error_t *e = NULL;
	for( int i = 0; i < LEN; i++ ) { msg[ i ] = (uint8_t) ( i * 73 + 11 ); key[ i ] = (uint8_t) ( i * 29 + 5 ); }
	if( strcmp( libhmac_get_version(), LIBHMAC_VERSION_STRING ) || atol( LIBHMAC_VERSION_STRING ) != LIBHMAC_VERSION ) bad( "the library", "the version is not the one published", 0, 0 );
	md5_all(); sha1_all(); sha224_all(); sha256_all(); sha512_all();
	if( libhmac_md5_calculate( msg, 1, NULL, 16, &e ) != -1 || e == NULL ) bad( "md5", "a missing output is not refused", 0, 0 );
	if( libhmac_error_sprint( e, text, sizeof text ) < 0 || libhmac_error_backtrace_sprint( e, text, sizeof text ) < 0 || libhmac_error_fprint( e, stderr ) < 0 || libhmac_error_backtrace_fprint( e, stderr ) < 0 )
		bad( "the library", "printing an error fails", 0, 0 );
	libhmac_error_free( &e );
	printf( "RUNS %ld\n", runs );
	return 0;
}
#endif
