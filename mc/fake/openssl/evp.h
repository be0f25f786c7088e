/* Stand-in for OpenSSL 1.0.x <openssl/evp.h>, whose digest context is a complete
 * type that callers embed.  Only the calls libhmac makes; backed by the checks'
 * own reference digests (mc/fake/evp_fake.c). */
#ifndef MC_FAKE_EVP_H
#define MC_FAKE_EVP_H
#include <stddef.h>
#include "../../ref.h"
typedef struct { int alg; } EVP_MD;
typedef struct { const EVP_MD *digest; unsigned long magic; ref_t *state; } EVP_MD_CTX;
typedef void ENGINE;
const EVP_MD *EVP_md5( void ), *EVP_sha1( void ), *EVP_sha224( void ), *EVP_sha256( void ), *EVP_sha512( void );
void EVP_MD_CTX_init( EVP_MD_CTX *c );
int EVP_MD_CTX_cleanup( EVP_MD_CTX *c );
int EVP_DigestInit_ex( EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e );
int EVP_DigestUpdate( EVP_MD_CTX *c, const void *p, size_t n );
int EVP_DigestFinal_ex( EVP_MD_CTX *c, unsigned char *out, unsigned int *n );
#endif
