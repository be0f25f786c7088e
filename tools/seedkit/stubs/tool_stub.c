/* The support libraries of the checksum tool over real files, for demonstrations. */
#include "libcfile.h"
#include "libclocale.h"
#include "libcnotify.h"
#include "libcsplit.h"
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <signal.h>
typedef struct { int fd; } f_t;
int libcnotify_verbose;
static int bad( libcerror_error_t **e, const char *w ) { libcerror_error_set( e, 1, 1, "%s: failed.", w ); return -1; }
int libcfile_file_initialize( libcfile_file_t **f, libcerror_error_t **e ) { f_t *s; if( f == NULL || *f != NULL || ( s = malloc( sizeof *s ) ) == NULL ) return bad( e, "initialize" ); s->fd = -1; *f = (libcfile_file_t *) s; return 1; }
int libcfile_file_free( libcfile_file_t **f, libcerror_error_t **e ) { f_t *s; if( f == NULL ) return bad( e, "free" ); s = (f_t *) *f; if( s ) { if( s->fd >= 0 ) close( s->fd ); free( s ); *f = NULL; } return 1; }
int libcfile_file_open( libcfile_file_t *f, const char *n, int a, libcerror_error_t **e ) { (void) a; f_t *s = (f_t *) f; if( s == NULL || n == NULL || s->fd >= 0 || ( s->fd = open( n, O_RDONLY ) ) < 0 ) return bad( e, "open" ); return 1; }
int libcfile_file_close( libcfile_file_t *f, libcerror_error_t **e ) { f_t *s = (f_t *) f; if( s == NULL || s->fd < 0 ) return bad( e, "close" ); close( s->fd ); s->fd = -1; return getenv( "DEMO_CLOSE_FAILS" ) ? bad( e, "close" ) : 0; }
int libcfile_file_is_open( libcfile_file_t *f, libcerror_error_t **e ) { f_t *s = (f_t *) f; if( s == NULL ) return bad( e, "is_open" ); return s->fd >= 0; }
/* DEMO_INT=k: SIGINT during the k-th read; DEMO_INT_SIZE: while the size is asked for; DEMO_COUNT=file: takes the number of reads
   DEMO_SHORT=n: reads return at most n bytes; DEMO_READ_FAILS=k: the k-th read fails; DEMO_EOF=n: data end after n bytes */
ssize_t libcfile_file_read_buffer( libcfile_file_t *f, uint8_t *b, size_t n, libcerror_error_t **e )
{
	static int k; static size_t total; f_t *s = (f_t *) f; ssize_t r; const char *x;
	static int reads; reads++;
	if( s == NULL || s->fd < 0 || b == NULL ) return bad( e, "read" );
	if( ( x = getenv( "DEMO_INT" ) ) && reads == atoi( x ) ) raise( SIGINT );
	if( ( x = getenv( "DEMO_COUNT" ) ) ) { FILE *c = fopen( x, "w" ); if( c ) { fprintf( c, "%d", reads ); fclose( c ); } }
	if( ( x = getenv( "DEMO_READ_FAILS" ) ) && ++k == atoi( x ) ) return bad( e, "read" );
	if( ( x = getenv( "DEMO_SHORT" ) ) && n > (size_t) atoi( x ) ) n = atoi( x );
	if( ( x = getenv( "DEMO_EOF" ) ) && total + n > (size_t) atol( x ) ) n = atol( x ) - total;
	r = read( s->fd, b, n );
	if( r > 0 ) total += r;
	return r < 0 ? bad( e, "read" ) : r;
}
int libcfile_file_get_size( libcfile_file_t *f, uint64_t *z, libcerror_error_t **e ) { struct stat st; f_t *s = (f_t *) f; if( s == NULL || s->fd < 0 || z == NULL || fstat( s->fd, &st ) ) return bad( e, "size" ); if( getenv( "DEMO_INT_SIZE" ) ) { FILE *c = getenv( "DEMO_COUNT" ) ? fopen( getenv( "DEMO_COUNT" ), "w" ) : NULL; if( c ) { fprintf( c, "0" ); fclose( c ); } raise( SIGINT ); } *z = st.st_size; return 1; }
off_t libcfile_file_seek_offset( libcfile_file_t *f, off_t o, int w, libcerror_error_t **e ) { f_t *s = (f_t *) f; if( s == NULL || s->fd < 0 ) return bad( e, "seek" ); return lseek( s->fd, o, w ); }
int libclocale_initialize( const char *d, libcerror_error_t **e ) { (void) d; (void) e; return 1; }
int libclocale_locale_get_decimal_point( int *p, libcerror_error_t **e ) { (void) e; *p = '.'; return 1; }
int libclocale_codepage_get( int *p, libcerror_error_t **e ) { (void) e; *p = 0; return 1; }
void libcnotify_verbose_set( int v ) { libcnotify_verbose = v; }
int libcnotify_stream_set( FILE *s, libcerror_error_t **e ) { (void) s; (void) e; return 1; }
int libcnotify_printf( const char *f, ... ) { va_list a; va_start( a, f ); int r = vfprintf( stderr, f, a ); va_end( a ); return r; }
int libcnotify_print_error_backtrace( libcerror_error_t *e ) { return libcerror_error_backtrace_fprint( e, stderr ); }
typedef struct { int n; char *s[ 256 ]; } sp_t;
int libcsplit_narrow_string_split( const char *str, size_t size, char d, libcsplit_narrow_split_string_t **p, libcerror_error_t **e )
{
	sp_t *s; const char *c = str, *q;
	if( str == NULL || p == NULL || *p != NULL || ( s = calloc( 1, sizeof *s ) ) == NULL ) return bad( e, "split" );
	(void) size;
	do { q = strchr( c, d ); s->s[ s->n++ ] = q ? strndup( c, q - c ) : strdup( c ); c = q ? q + 1 : NULL; } while( c && s->n < 256 );
	*p = (libcsplit_narrow_split_string_t *) s; return 1;
}
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **p, libcerror_error_t **e ) { sp_t *s; if( p == NULL ) return bad( e, "free" ); s = (sp_t *) *p; if( s ) { for( int i = 0; i < s->n; i++ ) free( s->s[ i ] ); free( s ); *p = NULL; } return 1; }
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *p, int *n, libcerror_error_t **e ) { if( p == NULL || n == NULL ) return bad( e, "segments" ); *n = ( (sp_t *) p )->n; return 1; }
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *p, int i, char **q, size_t *l, libcerror_error_t **e ) { sp_t *s = (sp_t *) p; if( s == NULL || i < 0 || i >= s->n ) return bad( e, "segment" ); *q = s->s[ i ]; *l = strlen( *q ) + 1; return 1; }
int libcsplit_narrow_split_string_set_segment_by_index( libcsplit_narrow_split_string_t *p, int i, char *q, size_t l, libcerror_error_t **e ) { (void) p; (void) i; (void) q; (void) l; return bad( e, "set" ); }
