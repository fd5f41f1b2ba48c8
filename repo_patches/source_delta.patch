From 1a5cd979a624d92e74a7d71aa7c2ea0334612bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 01/16] fix: clear the hash of a long key from the stack in
 calculate_hmac

---
 libhmac/libhmac_md5.c    | 19 +++++++++++++++++++
 libhmac/libhmac_sha1.c   | 19 +++++++++++++++++++
 libhmac/libhmac_sha224.c | 19 +++++++++++++++++++
 libhmac/libhmac_sha256.c | 19 +++++++++++++++++++
 libhmac/libhmac_sha512.c | 19 +++++++++++++++++++
 5 files changed, 95 insertions(+)

diff --git a/libhmac/libhmac_md5.c b/libhmac/libhmac_md5.c
index 943c28a..4fa2946 100644
--- a/libhmac/libhmac_md5.c
+++ b/libhmac/libhmac_md5.c
@@ -408,6 +408,20 @@ int libhmac_md5_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_MD5_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_MD5_HASH_SIZE );
+
 	return( -1 );
 }
 
diff --git a/libhmac/libhmac_sha1.c b/libhmac/libhmac_sha1.c
index d63cb4d..c98a6ac 100644
--- a/libhmac/libhmac_sha1.c
+++ b/libhmac/libhmac_sha1.c
@@ -408,6 +408,20 @@ int libhmac_sha1_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_SHA1_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_SHA1_HASH_SIZE );
+
 	return( -1 );
 }
 
diff --git a/libhmac/libhmac_sha224.c b/libhmac/libhmac_sha224.c
index ddfc542..c4c2b47 100644
--- a/libhmac/libhmac_sha224.c
+++ b/libhmac/libhmac_sha224.c
@@ -408,6 +408,20 @@ int libhmac_sha224_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_SHA224_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_SHA224_HASH_SIZE );
+
 	return( -1 );
 }
 
diff --git a/libhmac/libhmac_sha256.c b/libhmac/libhmac_sha256.c
index 40ea5ed..c11df91 100644
--- a/libhmac/libhmac_sha256.c
+++ b/libhmac/libhmac_sha256.c
@@ -408,6 +408,20 @@ int libhmac_sha256_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_SHA256_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_SHA256_HASH_SIZE );
+
 	return( -1 );
 }
 
diff --git a/libhmac/libhmac_sha512.c b/libhmac/libhmac_sha512.c
index d21ce47..684f6a6 100644
--- a/libhmac/libhmac_sha512.c
+++ b/libhmac/libhmac_sha512.c
@@ -408,6 +408,20 @@ int libhmac_sha512_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_SHA512_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_SHA512_HASH_SIZE );
+
 	return( -1 );
 }
 
-- 
2.43.0


From 888940d13da7884924ff45614715aa876fcbd479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 02/16] fix: clear all of the SHA1 message schedule

---
 libhmac/libhmac_sha1_context.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index aa623e4..6680367 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -461,7 +461,7 @@ ssize_t libhmac_sha1_context_transform(
 	if( memory_set(
 	     values_32bit,
 	     0,
-	     sizeof( uint32_t ) * 16 ) == NULL )
+	     sizeof( uint32_t ) * 80 ) == NULL )
 	{
 		libcerror_error_set(
 		 error,
@@ -478,7 +478,7 @@ on_error:
 	memory_set(
 	 values_32bit,
 	 0,
-	 sizeof( uint32_t ) * 64 );
+	 sizeof( uint32_t ) * 80 );
 
 	memory_set(
 	 hash_values,
-- 
2.43.0


From 2eda008af4f050ab69f1de5d26f608b429e4ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 03/16] fix: clear a context that was not finalized before it
 is freed

---
 libhmac/libhmac_md5_context.c    | 7 +++++++
 libhmac/libhmac_sha1_context.c   | 7 +++++++
 libhmac/libhmac_sha224_context.c | 7 +++++++
 libhmac/libhmac_sha256_context.c | 7 +++++++
 libhmac/libhmac_sha512_context.c | 7 +++++++
 5 files changed, 35 insertions(+)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 534fa0c..9adbfe8 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -644,6 +644,13 @@ int libhmac_md5_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_md5_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index 6680367..65fb37b 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -717,6 +717,13 @@ int libhmac_sha1_context_free(
 		 */
 
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH ) */
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha1_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index a46a5fe..00b4e13 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -676,6 +676,13 @@ int libhmac_sha224_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha224_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 2b6f1cf..e58b596 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -676,6 +676,13 @@ int libhmac_sha256_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha256_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 7bb7b14..7f5acc6 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -712,6 +712,13 @@ int libhmac_sha512_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha512_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
-- 
2.43.0


From a225ae1c8a8027d6fbccce3e1e97b3fa859850f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 04/16] fix: accept the kilo factor in a byte size string

---
 hmactools/byte_size_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index 361e039..bd1767b 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -347,7 +347,7 @@ int byte_size_string_convert(
 
 		return( -1 );
 	}
-	else if( factor > 1 )
+	else if( factor > 0 )
 	{
 		byte_size_string_iterator++;
 	}
-- 
2.43.0


From bcee232350ba38a5a62324f30324c950e38d0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 05/16] fix: reject a byte size string of which the value does
 not fit in 64 bits

---
 hmactools/byte_size_string.c | 38 +++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index bd1767b..28556fa 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -215,6 +215,7 @@ int byte_size_string_convert(
 	uint64_t byte_size               = 0;
 	int8_t factor                    = 0;
 	int8_t remainder                 = -1;
+	uint8_t digit                    = 0;
 	int decimal_point                = 0;
 	int units                        = 0;
 
@@ -260,8 +261,21 @@ int byte_size_string_convert(
 		{
 			break;
 		}
+		digit = (uint8_t) ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+
+		if( byte_size > ( ( (uint64_t) UINT64_MAX - digit ) / 10 ) )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+			 LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM,
+			 "%s: invalid byte size value exceeds maximum.",
+			 function );
+
+			return( -1 );
+		}
 		byte_size *= 10;
-		byte_size += ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+		byte_size += digit;
 
 		byte_size_string_iterator++;
 	}
@@ -383,6 +397,17 @@ int byte_size_string_convert(
 	{
 		if( remainder > 0 )
 		{
+			if( byte_size > ( ( (uint64_t) UINT64_MAX - ( remainder * 10 ) ) / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM,
+				 "%s: invalid byte size value exceeds maximum.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 
 			factor--;
@@ -391,6 +416,17 @@ int byte_size_string_convert(
 		}
 		for( ; factor > 0; factor-- )
 		{
+			if( byte_size > ( (uint64_t) UINT64_MAX / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM,
+				 "%s: invalid byte size value exceeds maximum.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 		}
 	}
-- 
2.43.0


From cc040d2e6d180b86b85cf4fe4f2b80a9cc9bc737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 06/16] fix: free the split string when retrieving a digest
 type fails

---
 hmactools/sum_handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 82aa742..1b4d110 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1211,7 +1211,7 @@ int sum_handle_set_digest_types(
 		 "%s: unable to retrieve number of segments.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 	for( segment_index = 0;
 	     segment_index < number_of_segments;
@@ -1244,7 +1244,7 @@ int sum_handle_set_digest_types(
 			 function,
 			 segment_index );
 
-			return( -1 );
+			goto on_error;
 		}
 		if( string_segment_size == 4 )
 		{
-- 
2.43.0


From 2b0c0b26f144e9020946b2a236ba38500472e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 07/16] fix: return 1 when the digest types were set

---
 hmactools/sum_handle.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 1b4d110..9709dfb 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1167,7 +1167,6 @@ int sum_handle_set_digest_types(
 	uint8_t calculate_sha512               = 0;
 	int number_of_segments                 = 0;
 	int segment_index                      = 0;
-	int result                             = 0;
 
 	if( sum_handle == NULL )
 	{
@@ -1552,7 +1551,7 @@ int sum_handle_set_digest_types(
 
 		goto on_error;
 	}
-	return( result );
+	return( 1 );
 
 on_error:
 	if( string_elements != NULL )
-- 
2.43.0


From aa9caf63b8fbc96bc18b0939ce2940ab936a88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 08/16] fix: free the input handle when initializing a sum
 handle fails

---
 hmactools/sum_handle.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 9709dfb..64419b1 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -137,6 +137,12 @@ int sum_handle_initialize(
 on_error:
 	if( *sum_handle != NULL )
 	{
+		if( ( *sum_handle )->input_handle != NULL )
+		{
+			libcfile_file_free(
+			 &( ( *sum_handle )->input_handle ),
+			 NULL );
+		}
 		memory_free(
 		 *sum_handle );
 
-- 
2.43.0


From b34e6c4ed681ad3311dc1812fb24aa396d55c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:22 +0000
Subject: [PATCH 09/16] fix: detach the signal handler before the sum handle is
 freed on error in hmacsum

---
 hmactools/hmacsum.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hmactools/hmacsum.c b/hmactools/hmacsum.c
index 5bc0e83..5e2ac6c 100644
--- a/hmactools/hmacsum.c
+++ b/hmactools/hmacsum.c
@@ -394,6 +394,11 @@ on_error:
 	}
 	if( hmacsum_sum_handle != NULL )
 	{
+		/* Make sure the signal handler does not access the sum handle while it is freed
+		 */
+		hmactools_signal_detach(
+		 NULL );
+
 		sum_handle_free(
 		 &hmacsum_sum_handle,
 		 NULL );
-- 
2.43.0


From 7e43964b499404926731c96ce34614588606e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:22 +0000
Subject: [PATCH 10/16] fix: treat a single - as operand in the replacement
 getopt

---
 hmactools/hmactools_getopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 7f468ef..6ce9ade 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -93,6 +93,12 @@ system_integer_t hmactools_getopt(
 		}
 		argument_value++;
 
+		/* Check if the argument is a single '-', which is not an option
+		 */
+		if( *argument_value == (system_character_t) '\0' )
+		{
+			return( (system_integer_t) -1 );
+		}
 		/* Check if long options are provided '--'
 		 */
 		if( *argument_value == (system_character_t) '-' )
-- 
2.43.0


From de8680fbe5100ed894320f9e578402cbb6a87a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 11/16] fix: do not leak a reference to None in the calculate
 functions of pyhmac

---
 pyhmac/pyhmac_md5.c    | 6 ------
 pyhmac/pyhmac_sha1.c   | 6 ------
 pyhmac/pyhmac_sha224.c | 6 ------
 pyhmac/pyhmac_sha256.c | 6 ------
 pyhmac/pyhmac_sha512.c | 6 ------
 5 files changed, 30 deletions(-)

diff --git a/pyhmac/pyhmac_md5.c b/pyhmac/pyhmac_md5.c
index ce8d0ca..ce300a9 100644
--- a/pyhmac/pyhmac_md5.c
+++ b/pyhmac/pyhmac_md5.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_md5_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_md5_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hmac,
diff --git a/pyhmac/pyhmac_sha1.c b/pyhmac/pyhmac_sha1.c
index ba455f1..07555d4 100644
--- a/pyhmac/pyhmac_sha1.c
+++ b/pyhmac/pyhmac_sha1.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha1_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha1_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hmac,
diff --git a/pyhmac/pyhmac_sha224.c b/pyhmac/pyhmac_sha224.c
index e563d21..c88c381 100644
--- a/pyhmac/pyhmac_sha224.c
+++ b/pyhmac/pyhmac_sha224.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha224_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha224_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hmac,
diff --git a/pyhmac/pyhmac_sha256.c b/pyhmac/pyhmac_sha256.c
index 2fdf9cd..ebdbe91 100644
--- a/pyhmac/pyhmac_sha256.c
+++ b/pyhmac/pyhmac_sha256.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha256_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha256_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hmac,
diff --git a/pyhmac/pyhmac_sha512.c b/pyhmac/pyhmac_sha512.c
index 932f15c..e2024be 100644
--- a/pyhmac/pyhmac_sha512.c
+++ b/pyhmac/pyhmac_sha512.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha512_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha512_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hmac,
-- 
2.43.0


From f0cf8d2c81d2b604c55313d0243006513d839f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 12/16] fix: free the libhmac context when a pyhmac context
 object is initialized again

---
 pyhmac/pyhmac_md5_context.c    | 24 ++++++++++++++++++++++--
 pyhmac/pyhmac_sha1_context.c   | 24 ++++++++++++++++++++++--
 pyhmac/pyhmac_sha224_context.c | 24 ++++++++++++++++++++++--
 pyhmac/pyhmac_sha256_context.c | 24 ++++++++++++++++++++++--
 pyhmac/pyhmac_sha512_context.c | 24 ++++++++++++++++++++++--
 5 files changed, 110 insertions(+), 10 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 3ef4642..8345781 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_md5_context_new(
 
 		goto on_error;
 	}
+	pyhmac_md5_context->md5_context = NULL;
+
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
-	pyhmac_md5_context->md5_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		if( libhmac_md5_free(
+		     &( pyhmac_md5_context->md5_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_md5_initialize(
 	     &( pyhmac_md5_context->md5_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index eca70b6..9956fb6 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha1_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha1_context->sha1_context = NULL;
+
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha1_context->sha1_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		if( libhmac_sha1_free(
+		     &( pyhmac_sha1_context->sha1_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha1_initialize(
 	     &( pyhmac_sha1_context->sha1_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 3e09af9..72f7d75 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha224_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha224_context->sha224_context = NULL;
+
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha224_context->sha224_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		if( libhmac_sha224_free(
+		     &( pyhmac_sha224_context->sha224_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha224_initialize(
 	     &( pyhmac_sha224_context->sha224_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 086513c..e6e017a 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha256_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha256_context->sha256_context = NULL;
+
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha256_context->sha256_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		if( libhmac_sha256_free(
+		     &( pyhmac_sha256_context->sha256_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha256_initialize(
 	     &( pyhmac_sha256_context->sha256_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 97fd56a..9dc1ac0 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha512_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha512_context->sha512_context = NULL;
+
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha512_context->sha512_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		if( libhmac_sha512_free(
+		     &( pyhmac_sha512_context->sha512_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha512_initialize(
 	     &( pyhmac_sha512_context->sha512_context ),
 	     &error ) != 1 )
-- 
2.43.0


From 5dff119970829bdab632dd6e2467f06a84e8184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 13/16] fix: release a pyhmac context object that was never
 initialized

---
 pyhmac/pyhmac_md5_context.c    | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha1_context.c   | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha224_context.c | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha256_context.c | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha512_context.c | 40 +++++++++++++++-------------------
 5 files changed, 85 insertions(+), 115 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 8345781..b097462 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -274,15 +274,6 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	if( pyhmac_md5_context->md5_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid MD5 context - missing libhmac MD5 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_md5_context );
 
@@ -304,24 +295,27 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_md5_free(
-	          &( pyhmac_md5_context->md5_context ),
-	          &error );
+		result = libhmac_md5_free(
+		          &( pyhmac_md5_context->md5_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac MD5 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_md5_context );
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index 9956fb6..91b2478 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -274,15 +274,6 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	if( pyhmac_sha1_context->sha1_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA1 context - missing libhmac SHA1 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha1_context );
 
@@ -304,24 +295,27 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha1_free(
-	          &( pyhmac_sha1_context->sha1_context ),
-	          &error );
+		result = libhmac_sha1_free(
+		          &( pyhmac_sha1_context->sha1_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA1 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha1_context );
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 72f7d75..caea87a 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -274,15 +274,6 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	if( pyhmac_sha224_context->sha224_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA224 context - missing libhmac SHA224 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha224_context );
 
@@ -304,24 +295,27 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha224_free(
-	          &( pyhmac_sha224_context->sha224_context ),
-	          &error );
+		result = libhmac_sha224_free(
+		          &( pyhmac_sha224_context->sha224_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA224 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha224_context );
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index e6e017a..19c886d 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -274,15 +274,6 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	if( pyhmac_sha256_context->sha256_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA256 context - missing libhmac SHA256 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha256_context );
 
@@ -304,24 +295,27 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha256_free(
-	          &( pyhmac_sha256_context->sha256_context ),
-	          &error );
+		result = libhmac_sha256_free(
+		          &( pyhmac_sha256_context->sha256_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA256 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha256_context );
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 9dc1ac0..0a1016f 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -274,15 +274,6 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	if( pyhmac_sha512_context->sha512_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA512 context - missing libhmac SHA512 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha512_context );
 
@@ -304,24 +295,27 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha512_free(
-	          &( pyhmac_sha512_context->sha512_context ),
-	          &error );
+		result = libhmac_sha512_free(
+		          &( pyhmac_sha512_context->sha512_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA512 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha512_context );
-- 
2.43.0


From c930e656f4c076ffc38b992d0f7cd5bb4813fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 14/16] fix: release the fetched exception and the UTF-8 string
 in pyhmac_error

---
 pyhmac/pyhmac_error.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pyhmac/pyhmac_error.c b/pyhmac/pyhmac_error.c
index 73d0caf..a176e75 100644
--- a/pyhmac/pyhmac_error.c
+++ b/pyhmac/pyhmac_error.c
@@ -171,6 +171,15 @@ void VARARGS(
 	Py_DecRef(
 	 string_object );
 
+	Py_DecRef(
+	 exception_type );
+
+	Py_DecRef(
+	 exception_value );
+
+	Py_DecRef(
+	 exception_traceback );
+
 	return;
 }
 
@@ -297,9 +306,25 @@ void VARARGS(
 		 "%s.",
 		 error_string );
 	}
+#if PY_MAJOR_VERSION >= 3
+	if( utf8_string_object != NULL )
+	{
+		Py_DecRef(
+		 utf8_string_object );
+	}
+#endif
 	Py_DecRef(
 	 string_object );
 
+	Py_DecRef(
+	 exception_type );
+
+	Py_DecRef(
+	 exception_value );
+
+	Py_DecRef(
+	 exception_traceback );
+
 	return;
 }
 
-- 
2.43.0


From 54ce78528d366aaa4260282499c32adc7f8eda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 15/16] fix: release the module and report errors when
 initializing pyhmac fails

---
 pyhmac/pyhmac.c | 68 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/pyhmac/pyhmac.c b/pyhmac/pyhmac.c
index e421f0a..065c153 100644
--- a/pyhmac/pyhmac.c
+++ b/pyhmac/pyhmac.c
@@ -245,11 +245,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_md5_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "md5_context",
-	 (PyObject *) &pyhmac_md5_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "md5_context",
+	     (PyObject *) &pyhmac_md5_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_md5_context_type_object );
 
+		goto on_error;
+	}
 	/* Setup the sha1_context type object
 	 */
 	pyhmac_sha1_context_type_object.tp_new = PyType_GenericNew;
@@ -262,11 +267,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha1_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha1_context",
-	 (PyObject *) &pyhmac_sha1_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha1_context",
+	     (PyObject *) &pyhmac_sha1_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha1_context_type_object );
 
+		goto on_error;
+	}
 	/* Setup the sha224_context type object
 	 */
 	pyhmac_sha224_context_type_object.tp_new = PyType_GenericNew;
@@ -279,11 +289,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha224_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha224_context",
-	 (PyObject *) &pyhmac_sha224_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha224_context",
+	     (PyObject *) &pyhmac_sha224_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha224_context_type_object );
 
+		goto on_error;
+	}
 	/* Setup the sha256_context type object
 	 */
 	pyhmac_sha256_context_type_object.tp_new = PyType_GenericNew;
@@ -296,11 +311,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha256_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha256_context",
-	 (PyObject *) &pyhmac_sha256_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha256_context",
+	     (PyObject *) &pyhmac_sha256_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha256_context_type_object );
 
+		goto on_error;
+	}
 	/* Setup the sha512_context type object
 	 */
 	pyhmac_sha512_context_type_object.tp_new = PyType_GenericNew;
@@ -313,11 +333,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha512_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha512_context",
-	 (PyObject *) &pyhmac_sha512_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha512_context",
+	     (PyObject *) &pyhmac_sha512_context_type_object ) < 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha512_context_type_object );
 
+		goto on_error;
+	}
 	PyGILState_Release(
 	 gil_state );
 
@@ -328,6 +353,9 @@ PyMODINIT_FUNC initpyhmac(
 #endif
 
 on_error:
+	Py_DecRef(
+	 module );
+
 	PyGILState_Release(
 	 gil_state );
 
-- 
2.43.0


From 31ea044fe289c42f00c522db3e19f3e45e4d6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 16/16] fix: do not convert a missing string object in
 pyhmac_error

---
 pyhmac/pyhmac_error.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyhmac/pyhmac_error.c b/pyhmac/pyhmac_error.c
index a176e75..9aef404 100644
--- a/pyhmac/pyhmac_error.c
+++ b/pyhmac/pyhmac_error.c
@@ -130,9 +130,11 @@ void VARARGS(
 	                 exception_value );
 
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
-
+	if( string_object != NULL )
+	{
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
+	}
 	if( utf8_string_object != NULL )
 	{
 		exception_string = PyBytes_AsString(
@@ -279,9 +281,11 @@ void VARARGS(
 	                 exception_value );
 
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
-
+	if( string_object != NULL )
+	{
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
+	}
 	if( utf8_string_object != NULL )
 	{
 		exception_string = PyBytes_AsString(
-- 
2.43.0

