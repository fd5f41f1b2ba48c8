#if !defined( VT_LIBCLOCALE_H )
#define VT_LIBCLOCALE_H
#include <libcerror.h>
int libclocale_initialize( const char *domain_name, libcerror_error_t **error );
int libclocale_locale_get_decimal_point( int *decimal_point, libcerror_error_t **error );
#endif
