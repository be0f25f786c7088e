From 82a6edf0c1ad22f768ac5e527ec3350dfa5baa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 01/23] fix: prevent the compiler from removing memory sets of
 sensitive data

---
 common/memory.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/memory.h b/common/memory.h
index 2275bf2..d011a3e 100644
--- a/common/memory.h
+++ b/common/memory.h
@@ -116,7 +116,18 @@ extern "C" {
 
 /* Memory set
  */
-#if defined( HAVE_MEMSET ) || defined( WINAPI )
+#if defined( __GNUC__ ) && defined( HAVE_MEMSET )
+/* The barrier prevents the compiler from removing a memory set of sensitive
+ * data for which the memory is freed, or goes out of scope, afterwards
+ */
+#define memory_set( buffer, value, count ) \
+	__extension__ ( { \
+		void *memory_set_result = memset( (void *) buffer, (int) value, count ); \
+		__asm__ __volatile__( "" : : "r" ( memory_set_result ) : "memory" ); \
+		memory_set_result; \
+	} )
+
+#elif defined( HAVE_MEMSET ) || defined( WINAPI )
 #define memory_set( buffer, value, count ) \
 	memset( (void *) buffer, (int) value, count )
 #endif
-- 
2.43.0


From 6512515ba7e2b0c248856cc11595a99e07b96497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 02/23] fix: clear the context before its memory is freed

---
 libhmac/libhmac_md5_context.c    | 7 +++++++
 libhmac/libhmac_sha1_context.c   | 7 +++++++
 libhmac/libhmac_sha224_context.c | 7 +++++++
 libhmac/libhmac_sha256_context.c | 7 +++++++
 libhmac/libhmac_sha512_context.c | 7 +++++++
 5 files changed, 35 insertions(+)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 534fa0c..9adbfe8 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -644,6 +644,13 @@ int libhmac_md5_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_md5_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index aa623e4..7751e35 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -717,6 +717,13 @@ int libhmac_sha1_context_free(
 		 */
 
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH ) */
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha1_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index a46a5fe..00b4e13 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -676,6 +676,13 @@ int libhmac_sha224_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha224_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 2b6f1cf..e58b596 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -676,6 +676,13 @@ int libhmac_sha256_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha256_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 7bb7b14..7f5acc6 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -712,6 +712,13 @@ int libhmac_sha512_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha512_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
-- 
2.43.0


From 5d84459939989a8d28361d432975ac00c8f84f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:27 +0000
Subject: [PATCH 03/23] fix: build of digests by OpenSSL without EVP in
 configurations that have EVP too

---
 libhmac/libhmac_md5_context.c    | 6 +++++-
 libhmac/libhmac_sha1_context.c   | 6 +++++-
 libhmac/libhmac_sha224_context.c | 6 +++++-
 libhmac/libhmac_sha256_context.c | 6 +++++-
 libhmac/libhmac_sha512_context.c | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 9adbfe8..1c29908 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -428,7 +428,11 @@ int libhmac_md5_context_initialize(
 	libhmac_internal_md5_context_t *internal_context = NULL;
 	static char *function                            = "libhmac_md5_context_initialize";
 
-#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_MD5 )
+#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH )
+	/* No EVP message digest type necessary
+	 */
+
+#elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_MD5 )
 	const EVP_MD *evp_md_type                        = NULL;
 #endif
 
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index 7751e35..9c6345a 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -501,7 +501,11 @@ int libhmac_sha1_context_initialize(
 	libhmac_internal_sha1_context_t *internal_context = NULL;
 	static char *function                             = "libhmac_sha1_context_initialize";
 
-#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA1 )
+#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH )
+	/* No EVP message digest type necessary
+	 */
+
+#elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA1 )
 	const EVP_MD *evp_md_type                         = NULL;
 #endif
 
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index 00b4e13..c13bee9 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -460,7 +460,11 @@ int libhmac_sha224_context_initialize(
 	libhmac_internal_sha224_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha224_context_initialize";
 
-#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA224 )
+#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH )
+	/* No EVP message digest type necessary
+	 */
+
+#elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA224 )
 	const EVP_MD *evp_md_type                           = NULL;
 #endif
 
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index e58b596..9c60bb3 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -460,7 +460,11 @@ int libhmac_sha256_context_initialize(
 	libhmac_internal_sha256_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha256_context_initialize";
 
-#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA256 )
+#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH )
+	/* No EVP message digest type necessary
+	 */
+
+#elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA256 )
 	const EVP_MD *evp_md_type                           = NULL;
 #endif
 
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 7f5acc6..ac00d10 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -496,7 +496,11 @@ int libhmac_sha512_context_initialize(
 	libhmac_internal_sha512_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha512_context_initialize";
 
-#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA512 )
+#if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH )
+	/* No EVP message digest type necessary
+	 */
+
+#elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA512 )
 	const EVP_MD *evp_md_type                           = NULL;
 #endif
 
-- 
2.43.0


From fa08f92a971c281b7dc2875f11de6878b2daf1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:44 +0000
Subject: [PATCH 04/23] fix: accept output buffers larger than 4 GiB with
 OpenSSL EVP as the other digest implementations do

---
 libhmac/libhmac_md5_context.c    | 4 ++--
 libhmac/libhmac_sha1_context.c   | 4 ++--
 libhmac/libhmac_sha224_context.c | 4 ++--
 libhmac/libhmac_sha256_context.c | 4 ++--
 libhmac/libhmac_sha512_context.c | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 1c29908..f936f0d 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -1100,7 +1100,7 @@ int libhmac_md5_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_MD5_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1111,7 +1111,7 @@ int libhmac_md5_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_MD5_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index 9c6345a..0937512 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -1173,7 +1173,7 @@ int libhmac_sha1_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_SHA1_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1184,7 +1184,7 @@ int libhmac_sha1_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_SHA1_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index c13bee9..06b35e2 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -1132,7 +1132,7 @@ int libhmac_sha224_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_SHA224_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1143,7 +1143,7 @@ int libhmac_sha224_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_SHA224_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 9c60bb3..4c6fef0 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -1132,7 +1132,7 @@ int libhmac_sha256_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_SHA256_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1143,7 +1143,7 @@ int libhmac_sha256_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_SHA256_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index ac00d10..b19b226 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -1168,7 +1168,7 @@ int libhmac_sha512_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_SHA512_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1179,7 +1179,7 @@ int libhmac_sha512_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_SHA512_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
-- 
2.43.0


From a24442d48a5261c1d29279c45cd059e19b567997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 05/23] fix: return -1 when cleaning up the EVP message digest
 context fails on free

---
 libhmac/libhmac_md5_context.c    | 5 ++++-
 libhmac/libhmac_sha1_context.c   | 5 ++++-
 libhmac/libhmac_sha224_context.c | 5 ++++-
 libhmac/libhmac_sha256_context.c | 5 ++++-
 libhmac/libhmac_sha512_context.c | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index f936f0d..6a2cd85 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -599,6 +599,7 @@ int libhmac_md5_context_free(
 {
 	libhmac_internal_md5_context_t *internal_context = NULL;
 	static char *function                            = "libhmac_md5_context_free";
+	int result                                       = 1;
 
 	if( context == NULL )
 	{
@@ -631,6 +632,8 @@ int libhmac_md5_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -658,7 +661,7 @@ int libhmac_md5_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index 0937512..3f77a1e 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -672,6 +672,7 @@ int libhmac_sha1_context_free(
 {
 	libhmac_internal_sha1_context_t *internal_context = NULL;
 	static char *function                             = "libhmac_sha1_context_free";
+	int result                                        = 1;
 
 	if( context == NULL )
 	{
@@ -704,6 +705,8 @@ int libhmac_sha1_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -731,7 +734,7 @@ int libhmac_sha1_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index 06b35e2..6da0581 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -631,6 +631,7 @@ int libhmac_sha224_context_free(
 {
 	libhmac_internal_sha224_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha224_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -663,6 +664,8 @@ int libhmac_sha224_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -690,7 +693,7 @@ int libhmac_sha224_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 4c6fef0..de6e636 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -631,6 +631,7 @@ int libhmac_sha256_context_free(
 {
 	libhmac_internal_sha256_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha256_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -663,6 +664,8 @@ int libhmac_sha256_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -690,7 +693,7 @@ int libhmac_sha256_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index b19b226..4ef0e0b 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -667,6 +667,7 @@ int libhmac_sha512_context_free(
 {
 	libhmac_internal_sha512_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha512_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -699,6 +700,8 @@ int libhmac_sha512_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -726,7 +729,7 @@ int libhmac_sha512_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH )
-- 
2.43.0


From e9aae072811021aa712a2da6d8de8b3c44a24d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 06/23] fix: byte_stream_copy_to_uint48_little_endian set the
 value before adding to it

---
 common/byte_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/byte_stream.h b/common/byte_stream.h
index 41db315..593072f 100644
--- a/common/byte_stream.h
+++ b/common/byte_stream.h
@@ -107,7 +107,7 @@ typedef union byte_stream_float64
 	( value )  |= ( byte_stream )[ 5 ];
 
 #define byte_stream_copy_to_uint48_little_endian( byte_stream, value ) \
-	( value )  |= ( byte_stream )[ 5 ]; \
+	( value )   = ( byte_stream )[ 5 ]; \
 	( value ) <<= 8; \
 	( value )  |= ( byte_stream )[ 4 ]; \
 	( value ) <<= 8; \
-- 
2.43.0


From 32db215f80696cbaad8b5442b10e661d98065262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 07/23] fix:
 libhmac_byte_stream_copy_to_1x_uint64_little_endian lost the upper 4 bytes

---
 libhmac/libhmac_byte_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhmac/libhmac_byte_stream.h b/libhmac/libhmac_byte_stream.h
index 8cfea95..a5c6f25 100644
--- a/libhmac/libhmac_byte_stream.h
+++ b/libhmac/libhmac_byte_stream.h
@@ -109,7 +109,7 @@ extern "C" {
 	values[ values_index ] <<= 8; \
 	values[ values_index ]  |= ( byte_stream )[ ( values_index << 3 ) + 4 ]; \
 	values[ values_index ] <<= 8; \
-	values[ values_index ]   = ( byte_stream )[ ( values_index << 3 ) + 3 ]; \
+	values[ values_index ]  |= ( byte_stream )[ ( values_index << 3 ) + 3 ]; \
 	values[ values_index ] <<= 8; \
 	values[ values_index ]  |= ( byte_stream )[ ( values_index << 3 ) + 2 ]; \
 	values[ values_index ] <<= 8; \
-- 
2.43.0


From 3f2f89a542021c1e6e318c2c288c88b71e9df246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:36 +0000
Subject: [PATCH 08/23] fix: report failure when the digest hashes cannot be
 printed

---
 hmactools/sum_handle.c | 90 ++++++++++++++++++++++++++++++++----------
 1 file changed, 70 insertions(+), 20 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 82aa742..02a2efe 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1656,38 +1656,88 @@ int sum_handle_hash_values_fprint(
 	}
 	if( sum_handle->calculate_md5 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_md5_hash_string );
+		if( fprintf(
+		     stream,
+		     "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_md5_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print MD5 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha1 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha1_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha1_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA1 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha224 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha224_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha224_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA224 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha256 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha256_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha256_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA256 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha512 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha512_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha512_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA512 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	return( 1 );
 }
-- 
2.43.0


From 667f757102e7e46fa880cb87d5974ddee833d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:44 +0000
Subject: [PATCH 09/23] fix: read byte sizes with a kilo prefix

---
 hmactools/byte_size_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index 361e039..bd1767b 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -347,7 +347,7 @@ int byte_size_string_convert(
 
 		return( -1 );
 	}
-	else if( factor > 1 )
+	else if( factor > 0 )
 	{
 		byte_size_string_iterator++;
 	}
-- 
2.43.0


From 6b7e1e41dde77907aba31e56e8c32c40c926f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:16 +0000
Subject: [PATCH 10/23] fix: refuse byte sizes that do not fit in 64 bits

---
 hmactools/byte_size_string.c | 38 +++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index bd1767b..ccf3381 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -215,6 +215,7 @@ int byte_size_string_convert(
 	uint64_t byte_size               = 0;
 	int8_t factor                    = 0;
 	int8_t remainder                 = -1;
+	uint8_t digit                    = 0;
 	int decimal_point                = 0;
 	int units                        = 0;
 
@@ -260,8 +261,21 @@ int byte_size_string_convert(
 		{
 			break;
 		}
+		digit = (uint8_t) ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+
+		if( byte_size > ( ( UINT64_MAX - digit ) / 10 ) )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+			 LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM,
+			 "%s: invalid byte size value exceeds maximum.",
+			 function );
+
+			return( -1 );
+		}
 		byte_size *= 10;
-		byte_size += ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+		byte_size += digit;
 
 		byte_size_string_iterator++;
 	}
@@ -383,6 +397,17 @@ int byte_size_string_convert(
 	{
 		if( remainder > 0 )
 		{
+			if( byte_size > ( ( UINT64_MAX - ( remainder * 10 ) ) / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM,
+				 "%s: invalid byte size value exceeds maximum.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 
 			factor--;
@@ -391,6 +416,17 @@ int byte_size_string_convert(
 		}
 		for( ; factor > 0; factor-- )
 		{
+			if( byte_size > ( UINT64_MAX / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM,
+				 "%s: invalid byte size value exceeds maximum.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 		}
 	}
-- 
2.43.0


From f23862ec6e7d278a83240c90f97bd65fc3833e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 11/23] fix: only -- marks the end of the options and - is an
 operand

---
 hmactools/hmactools_getopt.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 7f468ef..8750468 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -93,9 +93,16 @@ system_integer_t hmactools_getopt(
 		}
 		argument_value++;
 
-		/* Check if long options are provided '--'
+		/* Check if the argument is only an option marker '-', which is an operand
 		 */
-		if( *argument_value == (system_character_t) '-' )
+		if( *argument_value == (system_character_t) '\0' )
+		{
+			return( (system_integer_t) -1 );
+		}
+		/* Check if the end of the options is provided '--'
+		 */
+		if( ( argument_value[ 0 ] == (system_character_t) '-' )
+		 && ( argument_value[ 1 ] == (system_character_t) '\0' ) )
 		{
 			optind++;
 
-- 
2.43.0


From a33a8c30bbafc9b7b47213aa9b114be9cc48f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 12/23] fix: continue after an unknown option in a group of
 options

---
 hmactools/hmactools_getopt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 8750468..0f50043 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -130,6 +130,10 @@ system_integer_t hmactools_getopt(
 		{
 			optind++;
 		}
+		else
+		{
+			next_option = argument_value;
+		}
 		if( ( *options_string != (system_character_t) ':' )
 		 && ( optopt != (system_integer_t) '?' ) )
 		{
-- 
2.43.0


From 0cbd0e14c20282e28b48e78bae182ff1a3d14089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 13/23] fix: return ? for a missing option argument unless the
 options string starts with :

---
 hmactools/hmactools_getopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 0f50043..f3771f8 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -179,7 +179,7 @@ system_integer_t hmactools_getopt(
 		 */
 		if( argument_count <= optind )
 		{
-			if( *option_value == ':' )
+			if( *options_string == (system_character_t) ':' )
 			{
 				return( (system_integer_t) ':' );
 			}
-- 
2.43.0


From 3d3fe5f0d9410fbcdea4993cc17c6d0999841a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:28 +0000
Subject: [PATCH 14/23] fix: report failure when the help or copyright cannot
 be printed

---
 hmactools/hmacsum.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hmactools/hmacsum.c b/hmactools/hmacsum.c
index 5bc0e83..74ea629 100644
--- a/hmactools/hmacsum.c
+++ b/hmactools/hmacsum.c
@@ -197,6 +197,15 @@ int main( int argc, char * const argv[] )
 				usage_fprint(
 				 stdout );
 
+				if( ferror(
+				     stdout ) != 0 )
+				{
+					fprintf(
+					 stderr,
+					 "Unable to print usage.\n" );
+
+					goto on_error;
+				}
 				return( EXIT_SUCCESS );
 
 			case (system_integer_t) 'p':
@@ -213,6 +222,15 @@ int main( int argc, char * const argv[] )
 				hmactools_output_copyright_fprint(
 				 stdout );
 
+				if( ferror(
+				     stdout ) != 0 )
+				{
+					fprintf(
+					 stderr,
+					 "Unable to print copyright.\n" );
+
+					goto on_error;
+				}
 				return( EXIT_SUCCESS );
 		}
 	}
-- 
2.43.0


From 23dc5ba8b5eba95453ce3ce5fcb5c8ecbdea78bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:02 +0000
Subject: [PATCH 15/23] fix: free the input handle when creating the sum handle
 fails

---
 hmactools/sum_handle.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 02a2efe..8eb94a4 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -100,7 +100,12 @@ int sum_handle_initialize(
 		 "%s: unable to clear sum handle.",
 		 function );
 
-		goto on_error;
+		memory_free(
+		 *sum_handle );
+
+		*sum_handle = NULL;
+
+		return( -1 );
 	}
 	if( libcfile_file_initialize(
 	     &( ( *sum_handle )->input_handle ),
@@ -137,6 +142,12 @@ int sum_handle_initialize(
 on_error:
 	if( *sum_handle != NULL )
 	{
+		if( ( *sum_handle )->input_handle != NULL )
+		{
+			libcfile_file_free(
+			 &( ( *sum_handle )->input_handle ),
+			 NULL );
+		}
 		memory_free(
 		 *sum_handle );
 
-- 
2.43.0


From d282d14fbdb0fb81d434594f69745dde41dac719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:02 +0000
Subject: [PATCH 16/23] fix: free the split digest types string on error

---
 hmactools/sum_handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 8eb94a4..fcae20e 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1222,7 +1222,7 @@ int sum_handle_set_digest_types(
 		 "%s: unable to retrieve number of segments.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 	for( segment_index = 0;
 	     segment_index < number_of_segments;
@@ -1255,7 +1255,7 @@ int sum_handle_set_digest_types(
 			 function,
 			 segment_index );
 
-			return( -1 );
+			goto on_error;
 		}
 		if( string_segment_size == 4 )
 		{
-- 
2.43.0


From c60853deb76573eadd504b3135c30aab25aa13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:08 +0000
Subject: [PATCH 17/23] fix: detach the signal handler before freeing the sum
 handle on error

---
 hmactools/hmacsum.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hmactools/hmacsum.c b/hmactools/hmacsum.c
index 74ea629..3360767 100644
--- a/hmactools/hmacsum.c
+++ b/hmactools/hmacsum.c
@@ -412,6 +412,9 @@ on_error:
 	}
 	if( hmacsum_sum_handle != NULL )
 	{
+		hmactools_signal_detach(
+		 NULL );
+
 		sum_handle_free(
 		 &hmacsum_sum_handle,
 		 NULL );
-- 
2.43.0


From c44076e692587805ca0c3c60c449fdd998299caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 18/23] fix: raise instead of crash when an exception has no
 representation

---
 pyhmac/pyhmac_error.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/pyhmac/pyhmac_error.c b/pyhmac/pyhmac_error.c
index 73d0caf..6952580 100644
--- a/pyhmac/pyhmac_error.c
+++ b/pyhmac/pyhmac_error.c
@@ -129,19 +129,22 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
 	if( exception_string != NULL )
 	{
 		libcerror_error_set(
@@ -269,19 +272,22 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
 	if( exception_string != NULL )
 	{
 		PyErr_Format(
-- 
2.43.0


From bb19fd0f5d44665d8a512afdb71dd9e66a402958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 19/23] fix: release the fetched exception after it is raised
 again

---
 pyhmac/pyhmac_error.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyhmac/pyhmac_error.c b/pyhmac/pyhmac_error.c
index 6952580..85fbd3d 100644
--- a/pyhmac/pyhmac_error.c
+++ b/pyhmac/pyhmac_error.c
@@ -174,6 +174,15 @@ void VARARGS(
 	Py_DecRef(
 	 string_object );
 
+	Py_DecRef(
+	 exception_type );
+
+	Py_DecRef(
+	 exception_value );
+
+	Py_DecRef(
+	 exception_traceback );
+
 	return;
 }
 
@@ -303,9 +312,22 @@ void VARARGS(
 		 "%s.",
 		 error_string );
 	}
+#if PY_MAJOR_VERSION >= 3
+	Py_DecRef(
+	 utf8_string_object );
+#endif
 	Py_DecRef(
 	 string_object );
 
+	Py_DecRef(
+	 exception_type );
+
+	Py_DecRef(
+	 exception_value );
+
+	Py_DecRef(
+	 exception_traceback );
+
 	return;
 }
 
-- 
2.43.0


From b7c299457d9041bfeedab70e90e3ee01431d0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 20/23] fix: release Python context objects that have no
 libhmac context

---
 pyhmac/pyhmac_md5_context.c    | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha1_context.c   | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha224_context.c | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha256_context.c | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha512_context.c | 40 +++++++++++++++-------------------
 5 files changed, 85 insertions(+), 115 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 3ef4642..026d042 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -254,15 +254,6 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	if( pyhmac_md5_context->md5_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid MD5 context - missing libhmac MD5 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_md5_context );
 
@@ -284,24 +275,27 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_md5_free(
-	          &( pyhmac_md5_context->md5_context ),
-	          &error );
+		result = libhmac_md5_free(
+		          &( pyhmac_md5_context->md5_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac MD5 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_md5_context );
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index eca70b6..55d07e9 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	if( pyhmac_sha1_context->sha1_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA1 context - missing libhmac SHA1 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha1_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha1_free(
-	          &( pyhmac_sha1_context->sha1_context ),
-	          &error );
+		result = libhmac_sha1_free(
+		          &( pyhmac_sha1_context->sha1_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA1 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha1_context );
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 3e09af9..09e7388 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	if( pyhmac_sha224_context->sha224_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA224 context - missing libhmac SHA224 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha224_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha224_free(
-	          &( pyhmac_sha224_context->sha224_context ),
-	          &error );
+		result = libhmac_sha224_free(
+		          &( pyhmac_sha224_context->sha224_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA224 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha224_context );
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 086513c..ce81954 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	if( pyhmac_sha256_context->sha256_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA256 context - missing libhmac SHA256 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha256_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha256_free(
-	          &( pyhmac_sha256_context->sha256_context ),
-	          &error );
+		result = libhmac_sha256_free(
+		          &( pyhmac_sha256_context->sha256_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA256 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha256_context );
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 97fd56a..e0a37be 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	if( pyhmac_sha512_context->sha512_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA512 context - missing libhmac SHA512 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha512_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha512_free(
-	          &( pyhmac_sha512_context->sha512_context ),
-	          &error );
+		result = libhmac_sha512_free(
+		          &( pyhmac_sha512_context->sha512_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA512 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha512_context );
-- 
2.43.0


From 652eff2f29fd195898990c0ae7d19bf92362a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 21/23] fix: free the libhmac context when a Python context
 object is initialized again

---
 pyhmac/pyhmac_md5_context.c    | 21 ++++++++++++++++++++-
 pyhmac/pyhmac_sha1_context.c   | 21 ++++++++++++++++++++-
 pyhmac/pyhmac_sha224_context.c | 21 ++++++++++++++++++++-
 pyhmac/pyhmac_sha256_context.c | 21 ++++++++++++++++++++-
 pyhmac/pyhmac_sha512_context.c | 21 ++++++++++++++++++++-
 5 files changed, 100 insertions(+), 5 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 026d042..6a2cbc9 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_md5_context_new(
 
 		goto on_error;
 	}
+	pyhmac_md5_context->md5_context = NULL;
+
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
 	{
@@ -215,7 +217,24 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
-	pyhmac_md5_context->md5_context = NULL;
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		if( libhmac_md5_free(
+		     &( pyhmac_md5_context->md5_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 
 	if( libhmac_md5_initialize(
 	     &( pyhmac_md5_context->md5_context ),
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index 55d07e9..a2a3336 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha1_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha1_context->sha1_context = NULL;
+
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
 	{
@@ -215,7 +217,24 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha1_context->sha1_context = NULL;
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		if( libhmac_sha1_free(
+		     &( pyhmac_sha1_context->sha1_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 
 	if( libhmac_sha1_initialize(
 	     &( pyhmac_sha1_context->sha1_context ),
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 09e7388..026a18d 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha224_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha224_context->sha224_context = NULL;
+
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
 	{
@@ -215,7 +217,24 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha224_context->sha224_context = NULL;
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		if( libhmac_sha224_free(
+		     &( pyhmac_sha224_context->sha224_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 
 	if( libhmac_sha224_initialize(
 	     &( pyhmac_sha224_context->sha224_context ),
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index ce81954..75d9543 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha256_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha256_context->sha256_context = NULL;
+
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
 	{
@@ -215,7 +217,24 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha256_context->sha256_context = NULL;
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		if( libhmac_sha256_free(
+		     &( pyhmac_sha256_context->sha256_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 
 	if( libhmac_sha256_initialize(
 	     &( pyhmac_sha256_context->sha256_context ),
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index e0a37be..5d922f0 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha512_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha512_context->sha512_context = NULL;
+
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
 	{
@@ -215,7 +217,24 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha512_context->sha512_context = NULL;
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		if( libhmac_sha512_free(
+		     &( pyhmac_sha512_context->sha512_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 
 	if( libhmac_sha512_initialize(
 	     &( pyhmac_sha512_context->sha512_context ),
-- 
2.43.0


From 4556ff467d7b99340fd037037a66d7c52f1563db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 22/23] fix: do not take a reference to None that is never
 given back

---
 pyhmac/pyhmac_md5.c    | 6 ------
 pyhmac/pyhmac_sha1.c   | 6 ------
 pyhmac/pyhmac_sha224.c | 6 ------
 pyhmac/pyhmac_sha256.c | 6 ------
 pyhmac/pyhmac_sha512.c | 6 ------
 5 files changed, 30 deletions(-)

diff --git a/pyhmac/pyhmac_md5.c b/pyhmac/pyhmac_md5.c
index ce8d0ca..ce300a9 100644
--- a/pyhmac/pyhmac_md5.c
+++ b/pyhmac/pyhmac_md5.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_md5_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_md5_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hmac,
diff --git a/pyhmac/pyhmac_sha1.c b/pyhmac/pyhmac_sha1.c
index ba455f1..07555d4 100644
--- a/pyhmac/pyhmac_sha1.c
+++ b/pyhmac/pyhmac_sha1.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha1_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha1_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hmac,
diff --git a/pyhmac/pyhmac_sha224.c b/pyhmac/pyhmac_sha224.c
index e563d21..c88c381 100644
--- a/pyhmac/pyhmac_sha224.c
+++ b/pyhmac/pyhmac_sha224.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha224_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha224_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hmac,
diff --git a/pyhmac/pyhmac_sha256.c b/pyhmac/pyhmac_sha256.c
index 2fdf9cd..ebdbe91 100644
--- a/pyhmac/pyhmac_sha256.c
+++ b/pyhmac/pyhmac_sha256.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha256_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha256_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hmac,
diff --git a/pyhmac/pyhmac_sha512.c b/pyhmac/pyhmac_sha512.c
index 932f15c..e2024be 100644
--- a/pyhmac/pyhmac_sha512.c
+++ b/pyhmac/pyhmac_sha512.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha512_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha512_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hmac,
-- 
2.43.0


From 76cbae3aab9ba542bf36b7ff2c692afd3dd93c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 23/23] fix: report failure when a type cannot be added to the
 Python module

---
 pyhmac/pyhmac.c | 73 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/pyhmac/pyhmac.c b/pyhmac/pyhmac.c
index e421f0a..e5cabc1 100644
--- a/pyhmac/pyhmac.c
+++ b/pyhmac/pyhmac.c
@@ -245,10 +245,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_md5_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "md5_context",
-	 (PyObject *) &pyhmac_md5_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "md5_context",
+	     (PyObject *) &pyhmac_md5_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_md5_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha1_context type object
 	 */
@@ -262,10 +268,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha1_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha1_context",
-	 (PyObject *) &pyhmac_sha1_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha1_context",
+	     (PyObject *) &pyhmac_sha1_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha1_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha224_context type object
 	 */
@@ -279,10 +291,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha224_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha224_context",
-	 (PyObject *) &pyhmac_sha224_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha224_context",
+	     (PyObject *) &pyhmac_sha224_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha224_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha256_context type object
 	 */
@@ -296,10 +314,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha256_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha256_context",
-	 (PyObject *) &pyhmac_sha256_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha256_context",
+	     (PyObject *) &pyhmac_sha256_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha256_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha512_context type object
 	 */
@@ -313,10 +337,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha512_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha512_context",
-	 (PyObject *) &pyhmac_sha512_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha512_context",
+	     (PyObject *) &pyhmac_sha512_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha512_context_type_object );
+
+		goto on_error;
+	}
 
 	PyGILState_Release(
 	 gil_state );
@@ -328,6 +358,9 @@ PyMODINIT_FUNC initpyhmac(
 #endif
 
 on_error:
+	Py_DecRef(
+	 module );
+
 	PyGILState_Release(
 	 gil_state );
 
-- 
2.43.0

