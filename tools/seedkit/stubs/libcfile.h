#ifndef MC_LIBCFILE_H
#define MC_LIBCFILE_H
#include "libcerror.h"
#include <stdint.h>
#include <sys/types.h>
typedef intptr_t libcfile_file_t;
enum LIBCFILE_ACCESS_FLAGS { LIBCFILE_ACCESS_FLAG_READ = 1, LIBCFILE_ACCESS_FLAG_WRITE = 2, LIBCFILE_ACCESS_FLAG_TRUNCATE = 4 };
#define LIBCFILE_OPEN_READ ( LIBCFILE_ACCESS_FLAG_READ )
int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_open( libcfile_file_t *file, const char *filename, int access_flags, libcerror_error_t **error );
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error );
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *buffer, size_t size, libcerror_error_t **error );
int libcfile_file_get_size( libcfile_file_t *file, uint64_t *size, libcerror_error_t **error );
int libcfile_file_is_open( libcfile_file_t *file, libcerror_error_t **error );
off_t libcfile_file_seek_offset( libcfile_file_t *file, off_t offset, int whence, libcerror_error_t **error );
#endif
