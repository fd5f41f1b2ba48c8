/* Runs the real hmactools code on concrete inputs; libcfile, libcsplit, libclocale and libcnotify are stand-ins. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <common.h>
#include <types.h>
#include <libcerror.h>
#include <libcfile.h>
#include <libcsplit.h>
#include <libclocale.h>
#include <libcnotify.h>
#include <system_string.h>
#include "byte_size_string.h"
#include "digest_hash.h"
#include "sum_handle.h"

extern int vt_errors;
void *__real_malloc( size_t ); void __real_free( void * );
static long fail_at = 0, alloc_no = 0, live = 0, lib_fail_at = 0, lib_no = 0;
void *__wrap_malloc( size_t n )
{
	void *p;
	if( ++alloc_no == fail_at ) return NULL;
	p = __real_malloc( n );
	if( p ) { memset( p, 0xa5, n < 65536 ? n : 65536 ); live++; }
	return p;
}
void *__wrap_calloc( size_t n, size_t m ) { void *p = __wrap_malloc( n * m ); if( p ) memset( p, 0, n * m ); return p; }
#if defined( VT_PROGRAM )
/* hmacsum itself runs: the commands come from the environment, the signal is a real one */
#include <signal.h>
static long signal_at = 0, signal_free_at = 0, free_no = 0; static const char *failed = "-";
#define VT_STATIC
#else
#define VT_STATIC static
#endif
void __wrap_free( void *p )
{
	if( p ) live--;
	__real_free( p );
#if defined( VT_PROGRAM )
	if( p && ++free_no == signal_free_at ) raise( SIGINT );
#endif
}

/* ---- stand-ins */
static uint8_t *content; static size_t content_size, pos, chunk; static uint64_t media_size; static long abort_at, nreads; static sum_handle_t *handle;
static char readlog[ 4096 ]; static int opened, isopen, misuse; static char openname[ 256 ]; static int openflags;
#if defined( VT_PROGRAM )
#define libfail( e ) libfails( e, __FUNCTION__ )
static int libfails( libcerror_error_t **e, const char *who )
{
	if( ++lib_no == signal_at ) raise( SIGINT );
	if( lib_no == lib_fail_at ) { libcerror_error_set( e, 0, 0, "x" ); failed = who; return 1; }
	return 0;
}
typedef void (*vt_handler_t)( int );
vt_handler_t __real_signal( int, vt_handler_t ); int __real_setvbuf( FILE *, char *, int, size_t );
vt_handler_t __wrap_signal( int n, vt_handler_t h ) { libcerror_error_t *x = NULL; vt_handler_t r; if( !( signal_free_at && h == SIG_DFL ) && libfail( NULL ) ) return SIG_ERR; r = __real_signal( n, h ); return r; }
int __wrap_setvbuf( FILE *f, char *b, int m, size_t n ) { int r = __real_setvbuf( f, b, m, n ); return libfail( NULL ) ? -1 : r; }
#else
static int libfail( libcerror_error_t **e ) { if( ++lib_no == lib_fail_at ) { libcerror_error_set( e, 0, 0, "x" ); return 1; } return 0; }
#endif
int libcfile_file_initialize( libcfile_file_t **f, libcerror_error_t **e )
{
	if( f == NULL || *f != NULL ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	if( libfail( e ) ) return -1;
	*f = (libcfile_file_t *) __real_malloc( 8 ); live++;
	return 1;
}
int libcfile_file_free( libcfile_file_t **f, libcerror_error_t **e )
{
	if( f == NULL ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	if( *f ) { __real_free( *f ); live--; *f = NULL; isopen = 0; if( libfail( e ) ) return -1; }
	return 1;
}
int libcfile_file_open( libcfile_file_t *f, const char *n, int flags, libcerror_error_t **e )
{
	if( f == NULL || n == NULL ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	if( libfail( e ) ) return -1;
	opened++; isopen = 1; pos = 0; openflags = flags; snprintf( openname, sizeof( openname ), "%s", n );
	return 1;
}
int libcfile_file_open_wide( libcfile_file_t *f, const wchar_t *n, int flags, libcerror_error_t **e ) { return -1; }
int libcfile_file_close( libcfile_file_t *f, libcerror_error_t **e )
{
	if( f == NULL ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	isopen = 0;
	return libfail( e ) ? -1 : 0;
}
ssize_t libcfile_file_read_buffer( libcfile_file_t *f, uint8_t *b, size_t n, libcerror_error_t **e )
{
	size_t r, l;
	if( f == NULL || b == NULL || n > (size_t) SSIZE_MAX || !isopen ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	if( libfail( e ) ) return -1;
	r = content_size - pos < n ? content_size - pos : n;
	if( chunk && r > chunk ) r = chunk;
	memset( b, 0xee, n );
	memcpy( b, content + pos, r ); pos += r;
	l = strlen( readlog );
	if( l < sizeof( readlog ) - 32 ) snprintf( readlog + l, 32, "%zu,", n );
	if( ++nreads == abort_at ) { libcerror_error_t *x = NULL; sum_handle_signal_abort( handle, &x ); }
	return (ssize_t) r;
}
int libcfile_file_get_size( libcfile_file_t *f, size64_t *s, libcerror_error_t **e )
{
	if( f == NULL || s == NULL || !isopen ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	if( libfail( e ) ) return -1;
	*s = media_size;
	return 1;
}
typedef struct { int n; char *s[ 64 ]; size_t z[ 64 ]; } spl_t;
int libcsplit_narrow_string_split( const char *s, size_t z, char d, libcsplit_narrow_split_string_t **o, libcerror_error_t **e )
{
	spl_t *p; size_t i, b = 0;
	if( s == NULL || o == NULL || *o != NULL || libfail( e ) ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	p = __real_malloc( sizeof( spl_t ) ); live++; p->n = 0;
	for( i = 0; i < z && p->n < 64; i++ )
		if( s[ i ] == d || s[ i ] == 0 )
		{
			p->z[ p->n ] = i - b + 1; p->s[ p->n ] = __real_malloc( i - b + 1 ); memcpy( p->s[ p->n ], s + b, i - b ); p->s[ p->n ][ i - b ] = 0; p->n++;
			b = i + 1;
			if( s[ i ] == 0 ) break;
		}
	*o = (libcsplit_narrow_split_string_t *) p;
	return 1;
}
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **o, libcerror_error_t **e )
{
	spl_t *p;
	if( o == NULL ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	if( ( p = (spl_t *) *o ) != NULL ) { for( int i = 0; i < p->n; i++ ) __real_free( p->s[ i ] ); __real_free( p ); live--; *o = NULL; if( libfail( e ) ) return -1; }
	return 1;
}
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *o, int *n, libcerror_error_t **e )
{
	if( o == NULL || n == NULL || libfail( e ) ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	*n = ( (spl_t *) o )->n;
	return 1;
}
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *o, int i, char **s, size_t *z, libcerror_error_t **e )
{
	spl_t *p = (spl_t *) o;
	if( o == NULL || s == NULL || z == NULL || i < 0 || i >= p->n || libfail( e ) ) { libcerror_error_set( e, 0, 0, "x" ); return -1; }
	*s = p->s[ i ]; *z = p->z[ i ];
	return 1;
}
static int point = '.';
int libclocale_initialize( const char *d, libcerror_error_t **e ) { return libfail( e ) ? -1 : 1; }
int libclocale_locale_get_decimal_point( int *p, libcerror_error_t **e ) { if( libfail( e ) ) return -1; *p = point; return 1; }
int libcnotify_verbose = 0;
void libcnotify_verbose_set( int v ) { libcnotify_verbose = v; }
int libcnotify_stream_set( FILE *s, libcerror_error_t **e ) { return 1; }
int libcnotify_printf( const char *f, ... ) { return 0; }
int libcnotify_print_error_backtrace( libcerror_error_t *e ) { return 1; }

/* ---- commands */
#if !defined( VT_PROGRAM )
static uint8_t *unhex( const char *s, size_t *n, int nul )
{
	size_t l = strcmp( s, "-" ) == 0 ? 0 : strlen( s ) / 2; uint8_t *p = __real_malloc( l + nul ); unsigned v;
	for( size_t i = 0; i < l; i++ ) { sscanf( s + 2 * i, "%2x", &v ); p[ i ] = v; }
	if( nul ) p[ l ] = 0;
	*n = l;
	return p;
}
#endif
static uint8_t gen_( uint64_t i, uint64_t s ) { return (uint8_t) ( i * 131 + s * 17 + ( i >> 8 ) * 29 + ( i >> 16 ) * 7 + 3 ); }
#if !defined( VT_PROGRAM )
static void begin( long f, long lf ) { fail_at = f; alloc_no = 0; live = 0; lib_fail_at = lf; lib_no = 0; vt_errors = 0; point = '.'; }
static void end( libcerror_error_t **e ) { printf( " errors=%d errorset=%d live=%ld allocs=%ld libcalls=%ld\n", vt_errors, *e != NULL, live, alloc_no, lib_no ); libcerror_error_free( e ); fail_at = 0; lib_fail_at = 0; fflush( stdout ); }

int main( void )
{
	static char line[ 1 << 20 ];
	while( fgets( line, sizeof( line ), stdin ) )
	{
		char *a[ 32 ] = { 0 }; int n = 0; libcerror_error_t *e = NULL;
		for( char *t = strtok( line, " \n" ); t && n < 31; t = strtok( NULL, " \n" ) ) a[ n++ ] = t;
		if( n == 0 ) continue;
		if( strcmp( a[ 0 ], "hex" ) == 0 )
		{
			/* hex HASH STRINGSIZE MASK (1, 2: NULL arguments; 4, 8: string size above the maximum; 16, 32: hash size above it) */
			size_t hl, sz = strtoull( a[ 2 ], 0, 0 ), i; int nm = atoi( a[ 3 ] ), bad = 0, r; uint8_t *h = unhex( a[ 1 ], &hl, 0 ); system_character_t *s = __real_malloc( sz );
			memset( s, 0x5c, sz ); begin( 0, 0 );
			r = digest_hash_copy_to_string( nm & 1 ? NULL : h, nm & 16 ? (size_t) SSIZE_MAX + 1 : nm & 32 ? SIZE_MAX : hl, nm & 2 ? NULL : s, nm & 4 ? (size_t) SSIZE_MAX + 1 : nm & 8 ? SIZE_MAX : sz, &e );
			printf( "r=%d text=", r );
			for( i = 0; i < sz && i <= 2 * hl; i++ ) printf( "%02x", (uint8_t) s[ i ] );
			for( ; i < sz; i++ ) if( s[ i ] != 0x5c ) bad = 1;
			printf( " tail=%s", bad ? "changed" : "kept" );
			end( &e ); __real_free( h ); __real_free( s );
		}
		else if( strcmp( a[ 0 ], "size" ) == 0 )
		{
			/* size STRING POINT LIBFAIL NULLMASK */
			size_t l; uint8_t *s = unhex( a[ 1 ], &l, 1 ); uint64_t v = 0x1122334455667788ULL; int nm = atoi( a[ 4 ] ), r;
			begin( 0, atol( a[ 3 ] ) ); point = atoi( a[ 2 ] );
			r = byte_size_string_convert( nm & 1 ? NULL : (system_character_t *) s, l, nm & 2 ? NULL : &v, &e );
			printf( "r=%d value=%llu", r, (unsigned long long) v );
			end( &e ); __real_free( s );
		}
		else if( strcmp( a[ 0 ], "sum" ) == 0 )
		{
			/* sum TYPES BUFSIZE LEN SEED MEDIA CHUNK ABORTAT FAILAT LIBFAILAT FLAGS; ? instead of a string: not set */
			size_t l; char *text = NULL; size_t tz = 0; FILE *m; int r, ok = 1, flags = atoi( a[ 10 ] ); uint8_t *s;
			content_size = strtoull( a[ 3 ], 0, 0 ); content = __real_malloc( content_size ? content_size : 1 );
			for( size_t i = 0; i < content_size; i++ ) content[ i ] = gen_( i, strtoull( a[ 4 ], 0, 0 ) );
			media_size = a[ 5 ][ 0 ] == '?' ? content_size : strtoull( a[ 5 ], 0, 0 );
			chunk = strtoull( a[ 6 ], 0, 0 ); abort_at = atol( a[ 7 ] ); nreads = 0; readlog[ 0 ] = 0; opened = isopen = 0;
			begin( atol( a[ 8 ] ), atol( a[ 9 ] ) ); handle = NULL;
			r = sum_handle_initialize( &handle, &e ); printf( "init=%d", r ); ok = r == 1;
			if( ok ) { printf( " again=%d", sum_handle_initialize( &handle, &e ) ); libcerror_error_free( &e ); vt_errors = 0; }
			else printf( " hnull=%d", handle == NULL );
			if( ok && a[ 1 ][ 0 ] != '?' )
			{
				char *q = a[ 1 ], *x; int first = 1;
				/* several calls separated by / */
				for( x = q; x != NULL && ok; x = q ) { q = strchr( x, '/' ); if( q ) *q++ = 0; s = unhex( x, &l, 1 ); r = sum_handle_set_digest_types( handle, (system_character_t *) s, &e ); printf( " types%s=%d", first ? "" : "2", r ); ok = r == 1; first = 0; __real_free( s ); }
			}
			if( ok && a[ 2 ][ 0 ] != '?' ) { s = unhex( a[ 2 ], &l, 1 ); r = sum_handle_set_process_buffer_size( handle, (system_character_t *) s, &e ); printf( " buf=%d", r ); __real_free( s ); if( r == -1 ) ok = 0; }
			if( ok ) { r = sum_handle_open_input( handle, flags & 1 ? NULL : "name", &e ); printf( " open=%d opened=%d flags=%d name=%s", r, opened, openflags, opened ? openname : "-" ); ok = r == 1; }
			if( ok ) { r = sum_handle_process_input( handle, &e ); printf( " process=%d reads=%s", r, readlog[ 0 ] ? readlog : "-" ); if( !( flags & 2 ) ) ok = r == 1; }
			if( ok )
			{
				m = open_memstream( &text, &tz ); r = sum_handle_hash_values_fprint( handle, m, &e ); fclose( m );
				printf( " print=%d text=", r );
				for( size_t i = 0; i < tz; i++ ) printf( "%02x", (uint8_t) text[ i ] );
				if( tz == 0 ) printf( "-" );
				ok = r == 1;
				free( text ); live++;
			}
			if( ok ) { r = sum_handle_close( handle, &e ); printf( " close=%d stillopen=%d", r, isopen ); }
			if( handle ) { r = sum_handle_free( &handle, &e ); printf( " free=%d freednull=%d", r, handle == NULL ); }
			end( &e ); __real_free( content );
		}
		else if( strcmp( a[ 0 ], "nulls" ) == 0 )
		{
			begin( 0, 0 );
			printf( "init=%d", sum_handle_initialize( NULL, &e ) ); printf( " free=%d", sum_handle_free( NULL, &e ) ); handle = NULL; { libcerror_error_t *x = NULL; printf( " freenull=%d", sum_handle_free( &handle, &x ) ); }
			printf( " abort=%d", sum_handle_signal_abort( NULL, &e ) ); printf( " open=%d", sum_handle_open_input( NULL, "x", &e ) ); printf( " close=%d", sum_handle_close( NULL, &e ) );
			printf( " process=%d", sum_handle_process_input( NULL, &e ) ); printf( " types=%d", sum_handle_set_digest_types( NULL, "md5", &e ) ); printf( " buf=%d", sum_handle_set_process_buffer_size( NULL, "1", &e ) );
			printf( " print=%d", sum_handle_hash_values_fprint( NULL, stdout, &e ) );
			{
				sum_handle_t *h = NULL; libcerror_error_t *x = NULL;
				sum_handle_initialize( &h, &x );
				printf( " print2=%d", sum_handle_hash_values_fprint( h, NULL, &x ) );
				printf( " processnoopen=%d", sum_handle_process_input( h, &x ) );
				sum_handle_free( &h, &x ); libcerror_error_free( &x );
			}
			end( &e );
		}
		else { printf( "unknown\n" ); fflush( stdout ); }
	}
	return 0;
}

#else
/* hmacsum: VT=LEN SEED CHUNK FAILAT LIBFAILAT SIGNALAT SIGNALFREEAT; the report goes to the file VT_REPORT */
static void report( void )
{
	FILE *f; signal_at = signal_free_at = 0; fail_at = 0;
	if( getenv( "VT_REPORT" ) == NULL || ( f = fopen( getenv( "VT_REPORT" ), "w" ) ) == NULL ) return;
	fprintf( f, "live=%ld allocs=%ld libcalls=%ld frees=%ld opened=%d flags=%d verbose=%d failed=%s reads=%s name=%s\n", live, alloc_no, lib_no, free_no, opened, openflags, libcnotify_verbose, failed, readlog[ 0 ] ? readlog : "-", opened ? openname : "-" );
	fclose( f );
}
__attribute__(( constructor )) static void start( void )
{
	unsigned long long n = 0, s = 0, c = 0; long a = 0, b = 0, g = 0, h = 0;
	if( getenv( "VT" ) ) sscanf( getenv( "VT" ), "%llu %llu %llu %ld %ld %ld %ld", &n, &s, &c, &a, &b, &g, &h );
	content_size = n; media_size = n; chunk = c; content = malloc( n + 1 );
	for( size_t i = 0; i < content_size; i++ ) content[ i ] = gen_( i, s );
	alloc_no = live = lib_no = free_no = 0; fail_at = a; lib_fail_at = b; signal_at = g; signal_free_at = h;
	atexit( report );
}
#endif
