#ifndef MC_LIBCNOTIFY_H
#define MC_LIBCNOTIFY_H
#include "libcerror.h"
extern int libcnotify_verbose;
void libcnotify_verbose_set( int verbose );
int libcnotify_stream_set( FILE *stream, libcerror_error_t **error );
int libcnotify_printf( const char *format, ... );
int libcnotify_print_error_backtrace( libcerror_error_t *error );
#endif
