/* Reference digests and HMAC, written from RFC 1321, FIPS 180-4 and RFC 2104,
 * independent of the library under test and of OpenSSL. */
#ifndef MC_REF_H
#define MC_REF_H
#include <stddef.h>
#include <stdint.h>
enum { MD5, SHA1, SHA224, SHA256, SHA512, NALG };
extern const char *ref_name[ NALG ];
extern const size_t ref_dlen[ NALG ];
extern const size_t ref_block[ NALG ];
typedef struct { int alg; uint64_t h[ 8 ]; uint8_t buf[ 128 ]; uint64_t n; } ref_t;
void ref_init( ref_t *r, int alg );
void ref_update( ref_t *r, const void *p, size_t n );
void ref_final( ref_t *r, uint8_t *out );
void ref_digest( int alg, const void *p, size_t n, uint8_t *out );
void ref_hmac( int alg, const void *k, size_t kn, const void *p, size_t n, uint8_t *out );
/* serialised chaining value, as the digest would emit it (32 or 64 bytes; md5 16, sha1 20) */
size_t ref_state( const ref_t *r, uint8_t *out );
#endif
