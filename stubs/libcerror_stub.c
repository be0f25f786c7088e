/* Stand-in for libcerror, written from its public interface.
 * Counts what it is asked to do, so that a check can see whether an error was
 * set and whether every error was freed. Not subject to fault injection.
 * Kept free of instrumentation; counters are per thread of the scheduler's
 * choosing because only one coroutine runs at a time. */
#include "libcerror.h"
#include <stdlib.h>
#include <string.h>
#define MAXMSG 32
typedef struct { int domain, code; int n; char *msg[ MAXMSG ]; } err_t;
long mc_err_live, mc_err_sets, mc_err_allocs;
static void add( libcerror_error_t **error, int d, int c, const char *fmt, va_list ap )
{
	err_t *e;
	mc_err_sets++;
	if( error == NULL ) return;
	if( *error == NULL )
	{
		e = calloc( 1, sizeof( err_t ) );
		if( e == NULL ) return;
		e->domain = d; e->code = c;
		*error = (libcerror_error_t *) e;
		mc_err_live++; mc_err_allocs++;
	}
	e = (err_t *) *error;
	if( e->n < MAXMSG )
	{
		char b[ 512 ];
		vsnprintf( b, sizeof b, fmt, ap );
		e->msg[ e->n++ ] = strdup( b );
	}
}
void libcerror_error_set( libcerror_error_t **error, int d, int c, const char *fmt, ... )
{
	va_list ap; va_start( ap, fmt ); add( error, d, c, fmt, ap ); va_end( ap );
}
void libcerror_system_set_error( libcerror_error_t **error, int d, int c, uint32_t s, const char *fmt, ... )
{
	va_list ap; (void) s; va_start( ap, fmt ); add( error, d, c, fmt, ap ); va_end( ap );
}
void libcerror_error_free( libcerror_error_t **error )
{
	err_t *e; int i;
	if( error == NULL || *error == NULL ) return;
	e = (err_t *) *error;
	for( i = 0; i < e->n; i++ ) free( e->msg[ i ] );
	free( e );
	*error = NULL;
	mc_err_live--;
}
int libcerror_error_matches( libcerror_error_t *error, int d, int c )
{
	err_t *e = (err_t *) error;
	return e != NULL && e->domain == d && e->code == c;
}
static int put_s( char *s, size_t size, size_t *at, const char *m, int nl )
{
	size_t l = strlen( m );
	if( *at + l + ( nl ? 1 : 0 ) + 1 > size ) return -1;
	memcpy( s + *at, m, l ); *at += l;
	if( nl ) s[ (*at)++ ] = '\n';
	s[ *at ] = 0;
	return 0;
}
int libcerror_error_fprint( libcerror_error_t *error, FILE *stream )
{
	err_t *e = (err_t *) error;
	if( e == NULL || stream == NULL || e->n == 0 ) return -1;
	return fprintf( stream, "%s\n", e->msg[ e->n - 1 ] );
}
int libcerror_error_sprint( libcerror_error_t *error, char *string, size_t size )
{
	err_t *e = (err_t *) error; size_t at = 0;
	if( e == NULL || string == NULL || size == 0 || e->n == 0 ) return -1;
	if( put_s( string, size, &at, e->msg[ e->n - 1 ], 0 ) != 0 ) return -1;
	return (int) at;
}
int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *stream )
{
	err_t *e = (err_t *) error; int i, t = 0;
	if( e == NULL || stream == NULL || e->n == 0 ) return -1;
	for( i = 0; i < e->n; i++ ) t += fprintf( stream, "%s\n", e->msg[ i ] );
	return t;
}
int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *string, size_t size )
{
	err_t *e = (err_t *) error; size_t at = 0; int i;
	if( e == NULL || string == NULL || size == 0 || e->n == 0 ) return -1;
	for( i = 0; i < e->n; i++ )
		if( put_s( string, size, &at, e->msg[ i ], i + 1 < e->n ) != 0 ) return -1;
	return (int) at;
}
