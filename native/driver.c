/* Runs the real library on concrete inputs read as commands from stdin; one line of results per command. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <limits.h>
#include <pthread.h>
#include <malloc.h>
#include <unistd.h>
#include <sys/mman.h>
#include <common.h>
#include <types.h>
#include "libhmac_libcerror.h"
#include "libhmac_types.h"
#include "libhmac_definitions.h"
#include "libhmac_md5.h"
#include "libhmac_sha1.h"
#include "libhmac_sha224.h"
#include "libhmac_sha256.h"
#include "libhmac_sha512.h"
#include "libhmac_md5_context.h"
#include "libhmac_sha1_context.h"
#include "libhmac_sha224_context.h"
#include "libhmac_sha256_context.h"
#include "libhmac_sha512_context.h"

extern int vt_errors, vt_live_errors;
void *__real_malloc( size_t ); void __real_free( void * );
static long fail_at = 0, lib_at = 0, lib_no = 0; static int fired = 0; static _Atomic long alloc_no = 0, live = 0;
static uint8_t secret[ 64 ][ 64 ]; static int secret_len[ 64 ]; static int nsecret = 0; static int leaked_secret = 0;

static int find_secret( const uint8_t *p, size_t n )
{
	int i; size_t j;
	for( i = 0; i < nsecret; i++ )
		for( j = 0; j + (size_t) secret_len[ i ] <= n; j++ )
			if( p[ j ] == secret[ i ][ 0 ] && memcmp( p + j, secret[ i ], secret_len[ i ] ) == 0 )
				return i + 1;
	return 0;
}
void *__wrap_malloc( size_t n )
{
	void *p;
	if( ++alloc_no == fail_at ) { fired = 1; return NULL; }
	p = __real_malloc( n );
	if( p ) { memset( p, 0xa5, n ); live++; }
	return p;
}
void *__wrap_calloc( size_t n, size_t m ) { void *p = __wrap_malloc( n * m ); if( p ) memset( p, 0, n * m ); return p; }
void __wrap_free( void *p )
{
	int f;
	if( p )
	{
		live--;
		if( nsecret && !leaked_secret && ( f = find_secret( p, malloc_usable_size( p ) ) ) != 0 ) leaked_secret = f;
	}
	__real_free( p );
}
#if defined( VT_WRAP_LIB )
/* the OpenSSL calls: call number lib_at fails */
static int lib_fails( void ) { if( ++lib_no != lib_at ) return 0; fired = 1; return 1; }
#define W( name, ret, bad, params, args ) ret __real_ ## name params; ret __wrap_ ## name params { return lib_fails() ? bad : __real_ ## name args; }
void *__real_EVP_MD_CTX_new( void ); void __real_EVP_MD_CTX_free( void * );
void *__wrap_EVP_MD_CTX_new( void ) { void *p = lib_fails() ? NULL : __real_EVP_MD_CTX_new(); if( p ) live++; return p; }
void __wrap_EVP_MD_CTX_free( void *p ) { if( p ) live--; __real_EVP_MD_CTX_free( p ); }
W( EVP_DigestInit_ex, int, 0, ( void *c, const void *t, void *i ), ( c, t, i ) )
W( EVP_DigestInit_ex2, int, 0, ( void *c, const void *t, const void *p ), ( c, t, p ) )
W( EVP_DigestUpdate, int, 0, ( void *c, const void *d, size_t n ), ( c, d, n ) )
W( EVP_DigestFinal_ex, int, 0, ( void *c, unsigned char *h, unsigned int *n ), ( c, h, n ) )
#define W3( A ) W( A ## _Init, int, 0, ( void *c ), ( c ) ) W( A ## _Update, int, 0, ( void *c, const void *d, size_t n ), ( c, d, n ) ) W( A ## _Final, int, 0, ( unsigned char *h, void *c ), ( h, c ) )
W3( MD5 ) W3( SHA1 ) W3( SHA224 ) W3( SHA256 ) W3( SHA512 )
#endif
static uint8_t gen( uint64_t i, uint64_t s ) { return (uint8_t) ( i * 131 + s * 17 + ( i >> 8 ) * 29 + ( i >> 16 ) * 7 + 3 ); }
static uint8_t *message( size_t n, uint64_t s )
{
	uint8_t *p = __real_malloc( n ); size_t i;
	for( i = 0; i < n; i++ ) p[ i ] = gen( i, s );
	return p;
}
static void hex( const char *k, const uint8_t *p, size_t n )
{
	printf( " %s=", k );
	for( size_t i = 0; i < n; i++ ) printf( "%02x", p[ i ] );
}
static uint8_t *unhex( const char *s, size_t *n )
{
	size_t l = strcmp( s, "-" ) == 0 ? 0 : strlen( s ) / 2; uint8_t *p = __real_malloc( l ); unsigned v;
	for( size_t i = 0; i < l; i++ ) { sscanf( s + 2 * i, "%2x", &v ); p[ i ] = v; }
	*n = l;
	return p;
}
typedef struct {
	const char *name; size_t ctxsize; size_t hsize;
	int (*init)( intptr_t **, libcerror_error_t ** ); int (*free_)( intptr_t **, libcerror_error_t ** );
	int (*update)( intptr_t *, const uint8_t *, size_t, libcerror_error_t ** ); int (*final)( intptr_t *, uint8_t *, size_t, libcerror_error_t ** );
	int (*pinit)( intptr_t **, libcerror_error_t ** ); int (*pfree)( intptr_t **, libcerror_error_t ** );
	int (*pupdate)( intptr_t *, const uint8_t *, size_t, libcerror_error_t ** ); int (*pfinal)( intptr_t *, uint8_t *, size_t, libcerror_error_t ** );
	int (*calc)( const uint8_t *, size_t, uint8_t *, size_t, libcerror_error_t ** );
	int (*hmac)( const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, libcerror_error_t ** );
} alg_t;
#define A( x, X ) { #x, sizeof( libhmac_internal_##x##_context_t ), LIBHMAC_##X##_HASH_SIZE, \
	(void *) libhmac_##x##_context_initialize, (void *) libhmac_##x##_context_free, (void *) libhmac_##x##_context_update, (void *) libhmac_##x##_context_finalize, \
	(void *) libhmac_##x##_initialize, (void *) libhmac_##x##_free, (void *) libhmac_##x##_update, (void *) libhmac_##x##_finalize, \
	libhmac_##x##_calculate, libhmac_##x##_calculate_hmac }
static alg_t algs[] = { A( md5, MD5 ), A( sha1, SHA1 ), A( sha224, SHA224 ), A( sha256, SHA256 ), A( sha512, SHA512 ) };
static alg_t *alg( const char *n ) { for( int i = 0; i < 5; i++ ) if( strcmp( algs[ i ].name, n ) == 0 ) return &algs[ i ]; exit( 3 ); }

/* output buffer with canaries, exactly sized for the sanitizer */
static uint8_t *outbuf( size_t n ) { uint8_t *p = __real_malloc( n ); memset( p, 0x5c, n ); return p; }
static void tail( const uint8_t *out, size_t used, size_t n )
{
	int bad = 0;
	for( size_t i = used; i < n; i++ ) if( out[ i ] != 0x5c ) bad = 1;
	printf( " tail=%s", bad ? "changed" : "kept" );
}
static void begin( long f ) { fail_at = f < 1000 ? f : 0; lib_at = f < 1000 ? 0 : f - 1000; fired = 0; lib_no = 0; alloc_no = 0; live = 0; vt_errors = 0; leaked_secret = 0; }
static void end( libcerror_error_t **e, int want ) { printf( " errors=%d errorset=%d live=%ld secret=%d fired=%d\n", vt_errors, *e != NULL, live, leaked_secret, fired ); libcerror_error_free( e ); nsecret = 0; fail_at = 0; lib_at = 0; fflush( stdout ); }
static int changed( const uint8_t *p, size_t n, uint64_t s ) { for( size_t i = 0; i < n; i++ ) if( p[ i ] != gen( i, s ) ) return 1; return 0; }

static void cmd_digest( char *a[], int n, int pub )
{
	/* digest ALG LEN SEED HASHSIZE FAILAT SPLIT... */
	alg_t *g = alg( a[ 1 ] ); size_t len = strtoull( a[ 2 ], 0, 0 ); uint64_t seed = strtoull( a[ 3 ], 0, 0 );
	size_t hs = strtoull( a[ 4 ], 0, 0 ); long f = strtol( a[ 5 ], 0, 0 ); size_t pos = 0; int r, i;
	uint8_t *m = message( len, seed ), *out = outbuf( hs ); intptr_t *c = NULL; libcerror_error_t *e = NULL; int zero = 1;
	begin( f );
	r = ( pub ? g->pinit : g->init )( &c, &e );
	printf( "init=%d ctx=%d", r, c != NULL );
	if( r == 1 )
	{
		for( i = 6; i <= n; i++ )
		{
			size_t k = i < n ? strtoull( a[ i ], 0, 0 ) : len - pos;
			uint8_t *piece;
			if( k > len - pos ) k = len - pos;
			if( i == n && k == 0 && len != 0 ) break;
			piece = __real_malloc( k ); memcpy( piece, m + pos, k );
			r = ( pub ? g->pupdate : g->update )( c, piece, k, &e );
			if( changed( m, len, seed ) || memcmp( piece, m + pos, k ) != 0 ) printf( " input=changed" );
			__real_free( piece );
			if( r != 1 ) { printf( " update=%d", r ); break; }
			pos += k;
		}
		r = ( pub ? g->pfinal : g->final )( c, out, hs, &e );
		printf( " final=%d", r );
		for( size_t j = 0; j < g->ctxsize; j++ ) if( ( (uint8_t *) c )[ j ] ) zero = 0;
		printf( " zero=%d", zero );
		hex( "hash", out, hs < g->hsize ? hs : g->hsize );
		if( hs >= g->hsize ) tail( out, r == 1 ? g->hsize : 0, hs );
		r = ( pub ? g->pfree : g->free_ )( &c, &e );
		printf( " free=%d null=%d", r, c == NULL );
	}
	end( &e, 0 );
	__real_free( m ); __real_free( out );
}
static void cmd_calc( char *a[] )
{
	alg_t *g = alg( a[ 1 ] ); size_t len = strtoull( a[ 2 ], 0, 0 ); uint64_t seed = strtoull( a[ 3 ], 0, 0 ); size_t hs = strtoull( a[ 4 ], 0, 0 );
	uint8_t *m = message( len, seed ), *out = outbuf( hs ); libcerror_error_t *e = NULL; int r;
	begin( strtol( a[ 5 ], 0, 0 ) );
	r = g->calc( m, len, out, hs, &e );
	printf( "ret=%d", r ); hex( "hash", out, hs < g->hsize ? hs : g->hsize ); tail( out, r == 1 ? g->hsize : 0, hs );
	if( changed( m, len, seed ) ) printf( " input=changed" );
	end( &e, 0 );
	__real_free( m ); __real_free( out );
}
static void cmd_hmac( char *a[] )
{
	alg_t *g = alg( a[ 1 ] ); size_t kl = strtoull( a[ 2 ], 0, 0 ); uint64_t ks = strtoull( a[ 3 ], 0, 0 ); size_t len = strtoull( a[ 4 ], 0, 0 ); uint64_t seed = strtoull( a[ 5 ], 0, 0 );
	size_t hs = strtoull( a[ 6 ], 0, 0 ); uint8_t *k = message( kl, ks ), *m = message( len, seed ), *out = outbuf( hs ); libcerror_error_t *e = NULL; int r;
	begin( strtol( a[ 7 ], 0, 0 ) );
	r = g->hmac( k, kl, m, len, out, hs, &e );
	printf( "ret=%d", r ); hex( "hash", out, hs < g->hsize ? hs : g->hsize ); tail( out, r == 1 ? g->hsize : hs, hs );
	if( changed( m, len, seed ) || changed( k, kl, ks ) ) printf( " input=changed" );
	end( &e, 0 );
	__real_free( m ); __real_free( k ); __real_free( out );
}
static void cmd_huge( char *a[] )
{
	/* huge ALG CHUNK COUNT TAIL SEED */
	alg_t *g = alg( a[ 1 ] ); size_t ch = strtoull( a[ 2 ], 0, 0 ); uint64_t cnt = strtoull( a[ 3 ], 0, 0 ); size_t tl = strtoull( a[ 4 ], 0, 0 );
	uint8_t *m = message( ch, strtoull( a[ 5 ], 0, 0 ) ); intptr_t *c = NULL; libcerror_error_t *e = NULL; uint8_t out[ 64 ]; int r = 1;
	begin( 0 );
	g->init( &c, &e );
	for( uint64_t i = 0; i < cnt && r == 1; i++ ) r = g->update( c, m, ch, &e );
	if( r == 1 && tl ) r = g->update( c, m, tl, &e );
	if( r == 1 ) r = g->final( c, out, g->hsize, &e );
	printf( "ret=%d", r ); hex( "hash", out, g->hsize );
	g->free_( &c, &e );
	end( &e, 0 );
	__real_free( m );
}
static void cmd_huge1( char *a[] )
{
	/* huge1 ALG CHUNK COUNT TAIL SEED FIRST MODE : the same message from one buffer (one page set mapped over and over), in two updates or one call */
	alg_t *g = alg( a[ 1 ] ); size_t ch = strtoull( a[ 2 ], 0, 0 ); uint64_t cnt = strtoull( a[ 3 ], 0, 0 ); size_t tl = strtoull( a[ 4 ], 0, 0 ), first = strtoull( a[ 6 ], 0, 0 );
	uint8_t *m = message( ch, strtoull( a[ 5 ], 0, 0 ) ), *v; intptr_t *c = NULL; libcerror_error_t *e = NULL; uint8_t out[ 64 ]; int r = 1, fd = memfd_create( "m", 0 );
	if( fd < 0 || write( fd, m, ch ) != (ssize_t) ch ) { printf( "skip=1\n" ); return; }
	v = mmap( NULL, ( cnt + 1 ) * ch, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	for( uint64_t i = 0; v != MAP_FAILED && i <= cnt; i++ ) if( mmap( v + i * ch, ch, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) v = MAP_FAILED;
	if( v == MAP_FAILED ) { printf( "skip=1\n" ); return; }
	begin( 0 );
	if( !strcmp( a[ 7 ], "calc" ) ) r = g->calc( v, cnt * ch + tl, out, g->hsize, &e );
	else if( !strcmp( a[ 7 ], "hmac" ) ) r = g->hmac( m, 20, v, cnt * ch + tl, out, g->hsize, &e );
	else if( !strcmp( a[ 7 ], "key" ) ) r = g->hmac( v, cnt * ch + tl, m, 20, out, g->hsize, &e );
	else
	{
		int p = !strcmp( a[ 7 ], "pub" );
		( p ? g->pinit : g->init )( &c, &e );
		if( first ) r = ( p ? g->pupdate : g->update )( c, v, first, &e );
		if( r == 1 ) r = ( p ? g->pupdate : g->update )( c, v + first, cnt * ch + tl - first, &e );
		if( r == 1 ) r = ( p ? g->pfinal : g->final )( c, out, g->hsize, &e );
		( p ? g->pfree : g->free_ )( &c, &e );
	}
	printf( "ret=%d", r ); hex( "hash", out, g->hsize );
	end( &e, 0 );
	munmap( v, ( cnt + 1 ) * ch ); close( fd );
	__real_free( m );
}
static void cmd_raw( char *a[] )
{
	/* raw ALG CTXHEX BUFHEX HASHSIZE : update (unless BUFHEX is -) then finalize on the given context state */
	alg_t *g = alg( a[ 1 ] ); size_t n, bn = 0, hs = strtoull( a[ 4 ], 0, 0 ); uint8_t *c = unhex( a[ 2 ], &n ), *b = NULL, *out = NULL; libcerror_error_t *e = NULL; int r = 1;
	if( n != g->ctxsize ) { printf( "size=%zu\n", g->ctxsize ); __real_free( c ); return; }
	begin( 0 );
	b = unhex( a[ 3 ], &bn ); out = outbuf( hs );
	if( a[ 3 ][ 0 ] != '-' ) r = g->update( (intptr_t *) c, b, bn, &e );
	printf( "update=%d", r );
	r = g->final( (intptr_t *) c, out, hs, &e );
	printf( " final=%d", r ); hex( "hash", out, hs < g->hsize ? hs : g->hsize ); tail( out, g->hsize, hs );
	hex( "ctx", c, n );
	end( &e, 0 );
	__real_free( c ); __real_free( b ); __real_free( out );
}
static void cmd_args( char *a[] )
{
	/* every public function with every single invalid argument */
	alg_t *g = alg( a[ 1 ] ); uint8_t *m = message( 8, 1 ), *out = outbuf( 80 ), *c0; size_t H = g->hsize; int i, p;
	intptr_t *c = NULL, *d; libcerror_error_t *e = NULL; size_t big = (size_t) SSIZE_MAX + 1;
#define T( nm, call ) do { begin( 0 ); e = NULL; int r_ = ( call ); printf( "%s:%d:%d:%d ", nm, r_, vt_errors > 0, e != NULL ); libcerror_error_free( &e ); vt_errors = 0; \
	r_ = 1; } while( 0 )
#define N( nm, call ) do { begin( 0 ); int r_ = ( call ); printf( "%s:%d:%d:1 ", nm, r_, vt_errors > 0 ); } while( 0 )
	for( p = 0; p < 2; p++ )
	{
		int (*in)( intptr_t **, libcerror_error_t ** ) = p ? g->pinit : g->init; int (*fr)( intptr_t **, libcerror_error_t ** ) = p ? g->pfree : g->free_;
		int (*up)( intptr_t *, const uint8_t *, size_t, libcerror_error_t ** ) = p ? g->pupdate : g->update; int (*fi)( intptr_t *, uint8_t *, size_t, libcerror_error_t ** ) = p ? g->pfinal : g->final;
		T( "init-null", in( NULL, &e ) ); N( "init-null-noerr", in( NULL, NULL ) );
		c = NULL; in( &c, NULL ); d = c;
		T( "init-set", in( &d, &e ) ); printf( "same:%d ", d == c );
		T( "free-null", fr( NULL, &e ) );
		c0 = __real_malloc( g->ctxsize ); memcpy( c0, c, g->ctxsize );
		T( "update-nullctx", up( NULL, m, 8, &e ) ); T( "update-nullbuf", up( c, NULL, 8, &e ) ); T( "update-nullbuf0", up( c, NULL, 0, &e ) ); T( "update-big", up( c, m, big, &e ) ); T( "update-max", up( c, m, SIZE_MAX, &e ) );
		N( "update-noerr", up( NULL, m, 8, NULL ) );
		T( "final-nullctx", fi( NULL, out, H, &e ) ); T( "final-nullhash", fi( c, NULL, H, &e ) ); T( "final-small", fi( c, out, H - 1, &e ) ); T( "final-0", fi( c, out, 0, &e ) ); T( "final-big", fi( c, out, big, &e ) ); T( "final-max", fi( c, out, SIZE_MAX, &e ) );
		printf( "kept:%d ", memcmp( c0, c, g->ctxsize ) == 0 );
		for( i = 0; i < 80 && out[ i ] == 0x5c; i++ );
		printf( "outkept:%d ", i == 80 );
		fr( &c, NULL ); begin( 0 ); printf( "refree:%d:%d ", fr( &c, &e ), vt_errors == 0 ); __real_free( c0 );
	}
	T( "calc-nullbuf", g->calc( NULL, 8, out, H, &e ) ); T( "calc-nullhash", g->calc( m, 8, NULL, H, &e ) ); T( "calc-big", g->calc( m, big, out, H, &e ) ); T( "calc-small", g->calc( m, 8, out, H - 1, &e ) ); T( "calc-hbig", g->calc( m, 8, out, big, &e ) ); N( "calc-noerr", g->calc( NULL, 8, out, H, NULL ) );
	T( "hmac-nullkey", g->hmac( NULL, 8, m, 8, out, H, &e ) ); T( "hmac-nullbuf", g->hmac( m, 8, NULL, 8, out, H, &e ) ); T( "hmac-nullout", g->hmac( m, 8, m, 8, NULL, H, &e ) );
	T( "hmac-kbig", g->hmac( m, big, m, 8, out, H, &e ) ); T( "hmac-big", g->hmac( m, 8, m, big, out, H, &e ) ); T( "hmac-small", g->hmac( m, 8, m, 8, out, H - 1, &e ) ); T( "hmac-hbig", g->hmac( m, 8, m, 8, out, big, &e ) );
	T( "hmac-nullboth", g->hmac( NULL, 0, m, 8, out, H, &e ) ); N( "hmac-noerr", g->hmac( NULL, 8, m, 8, out, H, NULL ) );
	printf( "live:%ld\n", live ); fflush( stdout );
	__real_free( m ); __real_free( out );
}
/* clearing: the calling thread's stack is searched for secrets after the call */
typedef struct { alg_t *g; int what; uint8_t *k, *m; size_t kl, ml; intptr_t *c; uint8_t out[ 64 ]; int r; } job_t;
static void *job( void *p )
{
	job_t *j = p; libcerror_error_t *e = NULL;
	if( j->what == 0 ) j->r = j->g->hmac( j->k, j->kl, j->m, j->ml, j->out, j->g->hsize, &e );
	if( j->what == 1 ) j->r = j->g->calc( j->m, j->ml, j->out, j->g->hsize, &e );
	if( j->what == 2 ) j->r = j->g->update( j->c, j->m, j->ml, &e );
	return NULL;
}
static void cmd_stack( char *a[], int n )
{
	/* stack ALG hmac|calc|upd|free KEYLEN KSEED LEN SEED FAILAT SECRETHEX... */
	static uint8_t *stk = NULL; size_t S = 1 << 20; pthread_t t; pthread_attr_t at; job_t j; int i; size_t sl; libcerror_error_t *e = NULL; intptr_t *c = NULL;
	memset( &j, 0, sizeof j );
	j.g = alg( a[ 1 ] ); j.kl = strtoull( a[ 3 ], 0, 0 ); j.k = message( j.kl, strtoull( a[ 4 ], 0, 0 ) ); j.ml = strtoull( a[ 5 ], 0, 0 ); j.m = message( j.ml, strtoull( a[ 6 ], 0, 0 ) );
	if( stk == NULL ) stk = memalign( 4096, S );
	memset( stk, 0, S );
	nsecret = 0;
	begin( strtol( a[ 7 ], 0, 0 ) );
	if( a[ 2 ][ 0 ] == 'u' || a[ 2 ][ 0 ] == 'f' ) { j.g->init( &c, &e ); j.c = c; }
	for( i = 8; i < n && nsecret < 64; i++ ) { uint8_t *s = unhex( a[ i ], &sl ); memcpy( secret[ nsecret ], s, sl ); secret_len[ nsecret++ ] = (int) sl; __real_free( s ); }
	if( a[ 2 ][ 0 ] == 'f' )
	{
		j.g->update( c, j.m, j.ml, &e );
		j.g->free_( &c, &e );
		printf( "ret=1 stack=0" );
	}
	else
	{
		j.what = a[ 2 ][ 0 ] == 'h' ? 0 : a[ 2 ][ 0 ] == 'c' ? 1 : 2;
		pthread_attr_init( &at ); pthread_attr_setstack( &at, stk, S );
		pthread_create( &t, &at, job, &j ); pthread_join( t, NULL );
		printf( "ret=%d stack=%d", j.r, find_secret( stk, S ) );
		if( c ) { int n0 = nsecret; nsecret = 0; j.g->free_( &c, &e ); nsecret = n0; }
	}
	end( &e, 0 );
	__real_free( j.k ); __real_free( j.m );
}
static void cmd_inter( char *a[], int n )
{
	/* inter ALG LEN STEP: two contexts of the algorithm and one of each other algorithm, fed alternately */
	alg_t *g = alg( a[ 1 ] ); size_t len = strtoull( a[ 2 ], 0, 0 ), st = strtoull( a[ 3 ], 0, 0 ), i; intptr_t *c[ 7 ] = { 0 }; uint8_t out[ 64 ]; libcerror_error_t *e = NULL; int k; alg_t *G[ 7 ];
	begin( 0 );
	for( k = 0; k < 7; k++ ) { G[ k ] = k < 2 ? g : &algs[ k - 2 ]; G[ k ]->init( &c[ k ], &e ); }
	for( i = 0; i < len; i += st )
		for( k = 0; k < 7; k++ ) { size_t z = len - i < st ? len - i : st; uint8_t *p = __real_malloc( z ); for( size_t q = 0; q < z; q++ ) p[ q ] = gen( i + q, k ); G[ k ]->update( c[ k ], p, z, &e ); __real_free( p ); }
	for( k = 6; k >= 0; k-- ) { char nm[ 8 ]; sprintf( nm, "h%d", k ); memset( out, 0, 64 ); G[ k ]->final( c[ k ], out, G[ k ]->hsize, &e ); hex( nm, out, G[ k ]->hsize ); G[ k ]->free_( &c[ k ], &e ); }
	end( &e, 0 );
}
/* concurrent use of distinct contexts */
typedef struct { alg_t *g; int k, rounds, bad; uint8_t *m; size_t len; uint8_t want[ 3 ][ 64 ]; } thr_t;
static void thr_round( thr_t *t, uint8_t o[ 3 ][ 64 ] )
{
	intptr_t *c = NULL; libcerror_error_t *e = NULL; size_t i, st = 61 + t->k;
	memset( o, 0, 3 * 64 );
	t->g->calc( t->m, t->len, o[ 0 ], t->g->hsize, &e );
	t->g->hmac( t->m, 20 + 60 * ( t->k & 3 ), t->m, t->len, o[ 1 ], t->g->hsize, &e );
	t->g->init( &c, &e );
	for( i = 0; i < t->len; i += st ) t->g->update( c, t->m + i, t->len - i < st ? t->len - i : st, &e );
	t->g->final( c, o[ 2 ], t->g->hsize, &e );
	t->g->free_( &c, &e );
}
static void *thr_run( void *p )
{
	thr_t *t = p; uint8_t o[ 3 ][ 64 ];
	for( int i = 0; i < t->rounds && !t->bad; i++ ) { thr_round( t, o ); if( memcmp( o, t->want, sizeof o ) ) t->bad = 1; }
	return NULL;
}
static void cmd_threads( char *a[] )
{
	/* threads ALG LEN ROUNDS */
	thr_t t[ 4 ]; pthread_t p[ 4 ]; int k, bad = 0;
	begin( 0 );
	for( k = 0; k < 4; k++ ) { memset( &t[ k ], 0, sizeof t[ k ] ); t[ k ].g = alg( a[ 1 ] ); t[ k ].k = k; t[ k ].len = strtoull( a[ 2 ], 0, 0 ); t[ k ].rounds = atoi( a[ 3 ] ); t[ k ].m = message( t[ k ].len + 256, 40 + k ); thr_round( &t[ k ], t[ k ].want ); }
	for( k = 0; k < 4; k++ ) pthread_create( &p[ k ], NULL, thr_run, &t[ k ] );
	for( k = 0; k < 4; k++ ) { pthread_join( p[ k ], NULL ); bad += t[ k ].bad; __real_free( t[ k ].m ); }
	printf( "bad=%d\n", bad );
}
int main( void )
{
	static char line[ 1 << 20 ]; char *a[ 4096 ]; int n;
	while( fgets( line, sizeof line, stdin ) )
	{
		n = 0;
		for( char *p = strtok( line, " \n" ); p && n < 4095; p = strtok( NULL, " \n" ) ) a[ n++ ] = p;
		if( n == 0 ) continue;
		a[ n ] = NULL;
		if( !strcmp( a[ 0 ], "digest" ) ) cmd_digest( a, n, 0 );
		else if( !strcmp( a[ 0 ], "pdigest" ) ) cmd_digest( a, n, 1 );
		else if( !strcmp( a[ 0 ], "calc" ) ) cmd_calc( a );
		else if( !strcmp( a[ 0 ], "hmac" ) ) cmd_hmac( a );
		else if( !strcmp( a[ 0 ], "huge" ) ) cmd_huge( a );
		else if( !strcmp( a[ 0 ], "huge1" ) ) cmd_huge1( a );
		else if( !strcmp( a[ 0 ], "raw" ) ) cmd_raw( a );
		else if( !strcmp( a[ 0 ], "args" ) ) cmd_args( a );
		else if( !strcmp( a[ 0 ], "stack" ) ) cmd_stack( a, n );
		else if( !strcmp( a[ 0 ], "inter" ) ) cmd_inter( a, n );
		else if( !strcmp( a[ 0 ], "threads" ) ) cmd_threads( a );
		else { printf( "?\n" ); }
		fflush( stdout );
	}
	return 0;
}
