/* OpenSSL 1.0.x style provider backed by the reference digests. Its state is a
 * heap block, as in OpenSSL, that leaks unless the context is cleaned up. */
#include <stdlib.h>
#include <string.h>
#include <openssl/evp.h>
#include <openssl/err.h>
int (*mc_evp_fail)( const char *call );
#define MAGIC 0x45564d44UL
static int bad( const char *c ) { return mc_evp_fail != NULL && mc_evp_fail( c ); }
#define T( n, a ) const EVP_MD *EVP_##n( void ) { static const EVP_MD m = { a }; return bad( "EVP_" #n ) ? NULL : &m; }
T( md5, MD5 ) T( sha1, SHA1 ) T( sha224, SHA224 ) T( sha256, SHA256 ) T( sha512, SHA512 )
void EVP_MD_CTX_init( EVP_MD_CTX *c ) { memset( c, 0, sizeof *c ); c->magic = MAGIC; }
int EVP_MD_CTX_cleanup( EVP_MD_CTX *c )
{
	int r = !bad( "EVP_MD_CTX_cleanup" );
	if( c->magic == MAGIC && c->state != NULL ) { memset( c->state, 0, sizeof( ref_t ) ); free( c->state ); }
	memset( c, 0, sizeof *c );
	return r;
}
int EVP_DigestInit_ex( EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e )
{
	(void) e;
	if( bad( "EVP_DigestInit_ex" ) || c->magic != MAGIC || t == NULL ) return 0;
	if( c->state == NULL ) c->state = malloc( sizeof( ref_t ) );
	if( c->state == NULL ) return 0;
	c->digest = t;
	ref_init( c->state, t->alg );
	return 1;
}
int EVP_DigestUpdate( EVP_MD_CTX *c, const void *p, size_t n )
{
	if( bad( "EVP_DigestUpdate" ) || c->magic != MAGIC || c->digest == NULL || c->state == NULL ) return 0;
	ref_update( c->state, p, n );
	return 1;
}
int EVP_DigestFinal_ex( EVP_MD_CTX *c, unsigned char *out, unsigned int *n )
{
	if( bad( "EVP_DigestFinal_ex" ) || c->magic != MAGIC || c->digest == NULL || c->state == NULL ) return 0;
	ref_final( c->state, out );
	if( n != NULL ) *n = (unsigned) ref_dlen[ c->digest->alg ];
	memset( c->state, 0, sizeof( ref_t ) );
	return 1;
}
void ERR_remove_thread_state( const void *tid ) { (void) tid; }
