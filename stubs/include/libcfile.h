#if !defined( VT_LIBCFILE_H )
#define VT_LIBCFILE_H
#include <libcerror.h>
#include <types.h>
typedef intptr_t libcfile_file_t;
enum { LIBCFILE_ACCESS_FLAG_READ = 1 };
#define LIBCFILE_OPEN_READ LIBCFILE_ACCESS_FLAG_READ
int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_open( libcfile_file_t *file, const char *filename, int access_flags, libcerror_error_t **error );
int libcfile_file_open_wide( libcfile_file_t *file, const wchar_t *filename, int access_flags, libcerror_error_t **error );
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error );
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *buffer, size_t size, libcerror_error_t **error );
int libcfile_file_get_size( libcfile_file_t *file, size64_t *size, libcerror_error_t **error );
#endif
