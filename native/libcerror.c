/* Stand-in for libcerror: an error is a counter object; used only to run the real code natively. */
#include <stdarg.h>
#include <stdlib.h>
#include <stdint.h>
#include <libcerror.h>
int vt_errors = 0;
int vt_live_errors = 0;
void *__real_malloc( size_t );
void __real_free( void * );
void libcerror_error_set( libcerror_error_t **error, int domain, int code, const char *format, ... )
{
	vt_errors++;
	if( error != NULL && *error == NULL )
	{
		*error = (libcerror_error_t *) __real_malloc( 64 );
		vt_live_errors++;
	}
}
void libcerror_system_set_error( libcerror_error_t **error, int domain, int code, unsigned int sys, const char *format, ... )
{
	libcerror_error_set( error, domain, code, format );
}
void libcerror_error_free( libcerror_error_t **error )
{
	if( error != NULL && *error != NULL )
	{
		__real_free( *error );
		*error = NULL;
		vt_live_errors--;
	}
}
int libcerror_error_fprint( libcerror_error_t *error, FILE *stream ) { return 0; }
int libcerror_error_sprint( libcerror_error_t *error, char *string, size_t size ) { return 0; }
int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *stream ) { return 0; }
const char *vt_backtrace = "backtrace";
int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *string, size_t size )
{
	size_t n = 0;
	while( vt_backtrace[ n ] != 0 )
	{
		n++;
	}
	if( error == NULL || string == NULL || size < n + 1 )
	{
		for( size_t i = 0; string != NULL && i < size; i++ )
		{
			string[ i ] = 'x';
		}
		return -1;
	}
	for( size_t i = 0; i <= n; i++ )
	{
		string[ i ] = vt_backtrace[ i ];
	}
	return (int) n;
}
