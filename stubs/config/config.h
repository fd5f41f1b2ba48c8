/* Configuration the checks compile /repo's sources with. VT_EVP / VT_DIRECT /
 * neither select the digest backend; everything else is what configure finds on
 * this platform (see /repo/_build/common/config.h), with the libyal dependencies
 * taken as external (their headers are in /verif/stubs/include). */
#define HAVE_CLOSE 1
#define HAVE_ERRNO_H 1
#define HAVE_FCLOSE 1
#define HAVE_FCNTL_H 1
#define HAVE_FOPEN 1
#define HAVE_FREE 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIMITS_H 1
#define HAVE_LOCALECONV 1
#define HAVE_LOCALE_H 1
#define HAVE_MALLOC 1
#define HAVE_MEMCHR 1
#define HAVE_MEMCMP 1
#define HAVE_MEMCPY 1
#define HAVE_MEMRCHR 1
#define HAVE_MEMSET 1
#define HAVE_PRINTF_JD 1
#define HAVE_PRINTF_ZD 1
#define HAVE_REALLOC 1
#define HAVE_SETLOCALE 1
#define HAVE_SETVBUF 1
#define HAVE_SIGNAL_H 1
#define HAVE_SNPRINTF 1
#define HAVE_STDARG_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRCHR 1
#define HAVE_STRING_H 1
#define HAVE_STRLEN 1
#define HAVE_STRNCMP 1
#define HAVE_STRNCPY 1
#define HAVE_STRRCHR 1
#define HAVE_STRSTR 1
#define HAVE_SYS_SIGNAL_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE_VFPRINTF 1
#define HAVE_VSNPRINTF 1
#define HAVE_WCHAR_H 1
#if !defined( VT_NO_GETOPT )
#define HAVE_GETOPT 1
#endif
#define PACKAGE "libhmac"
#define PACKAGE_BUGREPORT "joachim.metz@gmail.com"
#define PACKAGE_NAME "libhmac"
#define PACKAGE_STRING "libhmac 20241028"
#define PACKAGE_VERSION "20241028"
#define VERSION "20241028"
#define SIZEOF_INT 4
#define SIZEOF_LONG 8
#define SIZEOF_OFF_T 8
#define SIZEOF_SIZE_T 8
#define SIZEOF_WCHAR_T 4
#define STDC_HEADERS 1
#if defined( VT_EVP )
#define HAVE_LIBCRYPTO 1
#define HAVE_OPENSSL_EVP_H 1
#define HAVE_EVP_MD5 1
#define HAVE_EVP_SHA1 1
#define HAVE_EVP_SHA224 1
#define HAVE_EVP_SHA256 1
#define HAVE_EVP_SHA512 1
#if !defined( VT_EVP_NO_EX2 )
#define HAVE_EVP_DIGESTINIT_EX2 1
#endif
#elif defined( VT_DIRECT )
#define HAVE_LIBCRYPTO 1
#define HAVE_OPENSSL_MD5_H 1
#define HAVE_OPENSSL_SHA_H 1
#endif
