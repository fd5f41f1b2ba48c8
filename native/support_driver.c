/* Calls the error functions and the version function of the library with a libcerror that records. */
#include <common.h>
#include <types.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <libcerror.h>
#include <libhmac/definitions.h>

static const char *who;
static const void *p1, *p2;
static size_t n;
static int calls, answer, bad = 0;
void libcerror_error_set( libcerror_error_t **error, int domain, int code, const char *format, ... ) {}
void libcerror_error_free( libcerror_error_t **error ) { who = "free"; p1 = error; calls++; }
int libcerror_error_fprint( libcerror_error_t *error, FILE *stream ) { who = "fprint"; p1 = error; p2 = stream; calls++; return answer; }
int libcerror_error_sprint( libcerror_error_t *error, char *string, size_t size ) { who = "sprint"; p1 = error; p2 = string; n = size; calls++; return answer; }
int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *stream ) { who = "backtrace_fprint"; p1 = error; p2 = stream; calls++; return answer; }
int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *string, size_t size ) { who = "backtrace_sprint"; p1 = error; p2 = string; n = size; calls++; return answer; }
void libhmac_error_free( void ** );
int libhmac_error_fprint( void *, FILE * );
int libhmac_error_sprint( void *, char *, size_t );
int libhmac_error_backtrace_fprint( void *, FILE * );
int libhmac_error_backtrace_sprint( void *, char *, size_t );
const char *libhmac_get_version( void );

static void expect( const char *w, const void *a, const void *b, size_t s, int r, int want )
{
	printf( "CASE %s\n", w );
	if( a != NULL && ( calls != 1 || strcmp( who, w ) != 0 || p1 != a || ( b != NULL && p2 != b ) || ( s != (size_t) -1 && n != s ) ) )
	{
		printf( "FAIL libhmac_error_%s\t%d calls, last %s with %s, %s, size %zu\tone call of libcerror_error_%s with the same arguments\n", w, calls, who == NULL ? "-" : who, p1 == a ? "the error" : "another error", p2 == b ? "the same" : "another", n, w );
	}
	if( r != want )
	{
		printf( "FAIL libhmac_error_%s\treturns %d\t%d\n", w, r, want );
	}
	calls = 0; who = NULL; p1 = p2 = NULL; n = 0;
}
int main( void )
{
	static char buffer[ 64 ];
	int answers[] = { -1, 0, 1, 5, 63, 64, 1000, 65536, 0x7fffffff };
	size_t sizes[] = { 0, 1, 2, 63, 64, 128, 65535, 65536, (size_t) 1 << 31, (size_t) 1 << 32, ( (size_t) 1 << 63 ) + 5 };
	void *error = &bad;
	const char *v = libhmac_get_version();
	printf( "CASE version\n" );
	if( v == NULL || strcmp( v, LIBHMAC_VERSION_STRING ) != 0 )
	{
		printf( "FAIL libhmac_get_version\t%s\t%s\n", v == NULL ? "NULL" : v, LIBHMAC_VERSION_STRING );
	}
	libhmac_error_free( &error );
	expect( "free", &error, NULL, -1, 0, 0 );
	for( size_t i = 0; i < sizeof( answers ) / sizeof( int ); i++ )
	{
		answer = answers[ i ];
		expect( "fprint", error, stderr, -1, libhmac_error_fprint( error, stderr ), answer );
		expect( "backtrace_fprint", error, stdout, -1, libhmac_error_backtrace_fprint( error, stdout ), answer );
		for( size_t k = 0; k < sizeof( sizes ) / sizeof( size_t ); k++ )
		{
			expect( "sprint", error, buffer, sizes[ k ], libhmac_error_sprint( error, buffer, sizes[ k ] ), answer );
			expect( "backtrace_sprint", error, buffer, sizes[ k ], libhmac_error_backtrace_sprint( error, buffer, sizes[ k ] ), answer );
		}
	}
	answer = -1;
	expect( "fprint", NULL, NULL, -1, libhmac_error_fprint( NULL, NULL ), -1 );
	expect( "backtrace_sprint", NULL, NULL, -1, libhmac_error_backtrace_sprint( NULL, NULL, 0 ), -1 );
	printf( "DONE\n" );
	return 0;
}
