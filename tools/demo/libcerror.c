#include <stdlib.h>
#include <stdint.h>
#include <libcerror.h>
int demo_errors = 0;
static int the_error;
void libcerror_error_set( libcerror_error_t **error, int domain, int code, const char *format, ... )
{
	demo_errors++;
	if( error != NULL && *error == NULL ) *error = (libcerror_error_t *) &the_error;
}
void libcerror_system_set_error( libcerror_error_t **error, int domain, int code, unsigned int sys, const char *format, ... )
{
	libcerror_error_set( error, domain, code, format );
}
void libcerror_error_free( libcerror_error_t **error )
{
	if( error != NULL ) *error = NULL;
}
int libcerror_error_fprint( libcerror_error_t *error, FILE *stream ) { return 0; }
int libcerror_error_sprint( libcerror_error_t *error, char *string, size_t size ) { return 0; }
int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *stream ) { return 0; }
int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *string, size_t size ) { return 0; }
