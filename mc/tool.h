/* The checksum tool in one process: its main function called as a function, its
 * support libraries replaced by stand-ins written from their interfaces, every
 * call into its environment an event that the exploration can make fail. */
#ifndef MC_TOOL_H
#define MC_TOOL_H
#include "h.h"
#include <setjmp.h>
#include <stdarg.h>
#include <fcntl.h>
#include "libcfile.h"
#include "libclocale.h"
#include "libcnotify.h"
#include "libcsplit.h"
enum { EV_ALLOC, EV_FINIT, EV_FOPEN, EV_FSIZE, EV_FREAD, EV_FCLOSE, EV_FFREE, EV_LOCALE, EV_POINT, EV_SPLIT, EV_SPLITN, EV_SPLITSEG, EV_SPLITFREE, EV_SIGNAL, EV_STREAM, EV_OUT, EV_ERR, EV_CLOSE, EV_OTHER, NEV };
static const char *ev_name[] = { "allocation", "file initialize", "file open", "file size", "file read", "file close", "file free", "locale initialize", "decimal point", "split", "number of segments", "segment", "split free", "signal", "stream set", "write to stdout", "write to stderr", "close", "other" };
static struct
{
	/* what the run finds */
	const uint8_t *data; uint64_t size, avail; const char *exists;      /* name that can be opened, NULL: any */
	uint64_t mapped, unit;                                               /* beyond mapped bytes the data go on with the same unit, 0: all are there */
	int decimal; size_t alloc_max;                                       /* larger allocations fail, 0: none does */
	int (*fail)( int ev, long index );                                   /* nonzero: this event fails (2: in a variant) */
	long (*read)( size_t want, uint64_t at );                            /* bytes delivered, -1 error; NULL: all there is */
	void (*at)( int ev );                                                /* called at every event and support call, before it takes effect */
	void (*leave)( void );
	/* what it did */
	char out[ 65536 ], err[ 65536 ]; size_t nout, nerr;
	long nev, failed; int fail_kinds; uint64_t pos; long reads, reads_max; size_t big_read;
	int status, ended;                                                   /* ended: 0 returned, 1 exit, 2 killed */
	long files, opens, splits, opened; char name[ 128 ]; int verbose; char *bad;
	void (*handler[ 65 ])( int ); int in_handler; int closed[ 16 ]; int running; int stdin_open;
} T;
static jmp_buf tool_jb; static FILE *t_out, *t_err, *real_stdout, *real_stderr;
/* not memcpy, which a sanitizer would check against the gaps between the variables */
static void rawcpy( void *d, const void *s, size_t n ) { __asm__ volatile( "rep movsb" : "+D"( d ), "+S"( s ), "+c"( n ) : : "memory" ); }
static int (*tool_main)( int, char *const[] );
static unsigned char *tool_seg[ 8 ]; static long tool_base_live;
static int tool_ev( int k )
{
	int r;
	if( !T.running ) return 0;
	if( T.at ) T.at( k );
	r = T.fail ? T.fail( k, T.nev ) : 0;
	T.nev++;
	if( r ) { T.failed++; T.fail_kinds |= 1 << k; }
	return r;
}
static int tool_fail_alloc( long i, size_t n ) { (void) i; if( tool_ev( EV_ALLOC ) ) return 1; return T.alloc_max && n > T.alloc_max; }
static ssize_t cap( int which, const char *b, size_t n )
{
	char *d = which ? T.err : T.out; size_t *at = which ? &T.nerr : &T.nout; int f = tool_ev( which ? EV_ERR : EV_OUT );
	if( f == 1 ) { errno = ENOSPC; return -1; }
	if( f == 2 && n > 0 ) n = n / 2;
	if( *at + n >= sizeof T.out ) { T.bad = "endless output"; longjmp( tool_jb, 3 ); }
	memcpy( d + *at, b, n ); *at += n; d[ *at ] = 0;
	if( f == 2 ) { errno = ENOSPC; return n ? (ssize_t) n : -1; }
	return n;
}
static ssize_t w_out( void *c, const char *b, size_t n ) { (void) c; n = cap( 0, b, n ); return (ssize_t) n < 0 ? 0 : (ssize_t) n; }
static ssize_t w_err( void *c, const char *b, size_t n ) { (void) c; n = cap( 1, b, n ); return (ssize_t) n < 0 ? 0 : (ssize_t) n; }
static void tool_end( int how, int status ) { T.status = status; T.ended = how; longjmp( tool_jb, 2 ); }
void __wrap_exit( int s ) { tool_end( 1, s & 255 ); __builtin_unreachable(); }
void __wrap__exit( int s ) { tool_end( 1, s & 255 ); __builtin_unreachable(); }
void __wrap__Exit( int s ) { tool_end( 1, s & 255 ); __builtin_unreachable(); }
void __wrap_abort( void ) { tool_end( 2, SIGABRT ); __builtin_unreachable(); }
ssize_t __wrap_write( int fd, const void *b, size_t n ) { if( fd == 1 || fd == 2 ) return cap( fd - 1, b, n ); errno = EBADF; return -1; }
int __wrap_close( int fd )
{
	if( tool_ev( EV_CLOSE ) || fd < 0 || fd >= 16 || ( T.closed[ fd ] && fd < 3 ) ) { errno = EBADF; return -1; }
	T.closed[ fd ]++; return 0;
}
typedef void (*hnd_t)( int );
hnd_t __wrap_signal( int s, hnd_t h )
{
	hnd_t o;
	if( tool_ev( EV_SIGNAL ) || s < 1 || s > 64 ) { errno = EINVAL; return SIG_ERR; }
	o = T.handler[ s ]; T.handler[ s ] = h; if( T.leave ) T.leave(); return o;
}
int __wrap_sigaction( int s, const struct sigaction *a, struct sigaction *o )
{
	if( tool_ev( EV_SIGNAL ) || s < 1 || s > 64 ) { errno = EINVAL; return -1; }
	if( o ) { memset( o, 0, sizeof *o ); o->sa_handler = T.handler[ s ]; }
	if( a ) T.handler[ s ] = a->sa_handler;
	if( T.leave ) T.leave();
	return 0;
}
extern void *__wrap_malloc( size_t ); extern void __wrap_free( void * );
char *__wrap_strdup( const char *s ) { size_t n = strlen( s ) + 1; char *p = __wrap_malloc( n ); return p ? memcpy( p, s, n ) : NULL; }
char *__wrap_strndup( const char *s, size_t m ) { size_t n = strnlen( s, m ); char *p = __wrap_malloc( n + 1 ); if( p ) { memcpy( p, s, n ); p[ n ] = 0; } return p; }
#define TOOL_WRAPS "exit _exit _Exit abort write close signal sigaction strdup strndup"
/* the interrupt, as the kernel would deliver it now */
static void tool_interrupt( int s )
{
	hnd_t h = T.handler[ s ];
	if( h == SIG_IGN || T.in_handler ) return;
	if( h == SIG_DFL || h == SIG_ERR ) tool_end( 2, s );
	T.in_handler = 1; h( s ); T.in_handler = 0;
}
#define EDOM_ 0x52, 1
static int efail( libcerror_error_t **e, const char *w ) { libcerror_error_set( e, EDOM_, "%s: injected failure.", w ); if( T.leave ) T.leave(); return -1; }
static int ok( int r ) { if( T.leave ) T.leave(); return r; }
/* libcfile */
typedef struct { uint64_t magic; int open; uint64_t at; } sfile_t;
static sfile_t *sf( libcfile_file_t *f ) { sfile_t *s = (sfile_t *) f; if( s == NULL ) return NULL; if( s->magic != 0xf11e ) { T.bad = "a file handle is used that is not one (released?)"; return NULL; } return s; }
int libcfile_file_initialize( libcfile_file_t **f, libcerror_error_t **e )
{
	sfile_t *s;
	if( f == NULL || *f != NULL ) return efail( e, "libcfile_file_initialize" );
	if( tool_ev( EV_FINIT ) ) return efail( e, "libcfile_file_initialize" );
	s = calloc( 1, sizeof *s ); s->magic = 0xf11e; *f = (libcfile_file_t *) s; T.files++; return ok( 1 );
}
static int sclose( sfile_t *s, libcerror_error_t **e )
{
	int r = s->open && tool_ev( EV_FCLOSE );
	if( s->open ) { s->open = 0; T.opens--; }
	return r ? efail( e, "libcfile_file_close" ) : 0;
}
int libcfile_file_free( libcfile_file_t **f, libcerror_error_t **e )
{
	int r = 1; sfile_t *s;
	if( f == NULL ) return efail( e, "libcfile_file_free" );
	if( *f == NULL ) return ok( 1 );
	s = sf( *f ); *f = NULL;
	if( s == NULL ) return efail( e, "libcfile_file_free" );
	if( sclose( s, e ) != 0 ) r = -1;
	if( tool_ev( EV_FFREE ) ) r = efail( e, "libcfile_file_free" );
	s->magic = 0xdead; free( s ); T.files--;
	return ok( r );
}
int libcfile_file_open( libcfile_file_t *f, const char *n, int a, libcerror_error_t **e )
{
	sfile_t *s = sf( f );
	if( s == NULL || n == NULL || s->open || a != LIBCFILE_OPEN_READ ) return efail( e, "libcfile_file_open" );
	snprintf( T.name, sizeof T.name, "%s", n ); T.opened++;
	if( tool_ev( EV_FOPEN ) || ( T.exists && strcmp( n, T.exists ) ) ) return efail( e, "libcfile_file_open" );
	s->open = 1; s->at = 0; T.opens++; return ok( 1 );
}
int libcfile_file_close( libcfile_file_t *f, libcerror_error_t **e ) { sfile_t *s = sf( f ); if( s == NULL ) return efail( e, "libcfile_file_close" ); return ok( sclose( s, e ) ); }
int libcfile_file_is_open( libcfile_file_t *f, libcerror_error_t **e ) { sfile_t *s = sf( f ); if( s == NULL ) return efail( e, "libcfile_file_is_open" ); return s->open; }
ssize_t libcfile_file_read_buffer( libcfile_file_t *f, uint8_t *b, size_t n, libcerror_error_t **e )
{
	sfile_t *s = sf( f ); uint64_t left; size_t k;
	if( s == NULL || !s->open || b == NULL || n > SSIZE_MAX ) return efail( e, "libcfile_file_read_buffer" );
	T.reads++; if( n > T.big_read ) T.big_read = n;
	if( T.reads > T.reads_max ) { T.bad = "endless reading"; longjmp( tool_jb, 3 ); }
	if( tool_ev( EV_FREAD ) ) return efail( e, "libcfile_file_read_buffer" );
	left = s->at < T.avail ? T.avail - s->at : 0;
	k = n < left ? n : left;
	if( T.read )
	{
		long r = T.read( k, s->at );
		if( r < 0 ) return efail( e, "libcfile_file_read_buffer" );
		if( (size_t) r < k ) k = r;
	}
	memcpy( b, T.data + (size_t) ( T.mapped && s->at + k > T.mapped ? s->at % T.unit : s->at ), k ); s->at += k; T.pos = s->at;
	return ok( 1 ), (ssize_t) k;
}
int libcfile_file_get_size( libcfile_file_t *f, uint64_t *z, libcerror_error_t **e )
{
	sfile_t *s = sf( f );
	if( s == NULL || !s->open || z == NULL || tool_ev( EV_FSIZE ) ) return efail( e, "libcfile_file_get_size" );
	*z = T.size; return ok( 1 );
}
off_t libcfile_file_seek_offset( libcfile_file_t *f, off_t o, int w, libcerror_error_t **e )
{
	sfile_t *s = sf( f ); int64_t p;
	if( s == NULL || !s->open || tool_ev( EV_OTHER ) ) return efail( e, "libcfile_file_seek_offset" );
	p = w == SEEK_SET ? o : w == SEEK_CUR ? (int64_t) s->at + o : (int64_t) T.size + o;
	if( p < 0 ) return efail( e, "libcfile_file_seek_offset" );
	s->at = p; return ok( 1 ), p;
}
/* for the Windows variant (mc/win): memory that stays when variables are set back, ending at a page that cannot be touched */
unsigned long mc_win_event;
uint8_t *mc_win_area( size_t **used )
{
	static uint8_t *p; static size_t n;
	if( p == NULL ) { p = mmap( NULL, ( 1UL << 30 ) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); if( p == MAP_FAILED || mprotect( p + ( 1UL << 30 ), 4096, PROT_NONE ) ) _exit( 2 ); p += 1UL << 30; }
	*used = &n; return p;
}
/* libclocale, libcnotify */
int libclocale_initialize( const char *d, libcerror_error_t **e ) { if( d == NULL || tool_ev( EV_LOCALE ) ) return efail( e, "libclocale_initialize" ); return ok( 1 ); }
int libclocale_locale_get_decimal_point( int *p, libcerror_error_t **e ) { if( p == NULL || tool_ev( EV_POINT ) ) return efail( e, "libclocale_locale_get_decimal_point" ); *p = T.decimal; return ok( 1 ); }
int libclocale_codepage_get( int *p, libcerror_error_t **e ) { (void) e; *p = 0; return 1; }
int libcnotify_verbose; static FILE *cn_stream;
void libcnotify_verbose_set( int v ) { T.verbose = libcnotify_verbose = v; }
int libcnotify_stream_set( FILE *s, libcerror_error_t **e ) { if( tool_ev( EV_STREAM ) ) return efail( e, "libcnotify_stream_set" ); cn_stream = s; return ok( 1 ); }
int libcnotify_printf( const char *f, ... )
{
	int r = 0; va_list a;
	if( tool_ev( EV_OTHER ) ) return -1;
	va_start( a, f ); if( cn_stream ) r = vfprintf( cn_stream, f, a ); va_end( a );
	return r;
}
int libcnotify_print_error_backtrace( libcerror_error_t *e ) { if( tool_ev( EV_OTHER ) ) return -1; return cn_stream && e ? libcerror_error_backtrace_fprint( e, cn_stream ) : 0; }
/* libcsplit: the size of a segment includes the end of string; an empty string has no segments */
typedef struct { uint64_t magic; int n, room; char **s; size_t *l; char *copy; } ssplit_t;
static ssplit_t *sp_( libcsplit_narrow_split_string_t *p ) { ssplit_t *s = (ssplit_t *) p; if( s == NULL ) return NULL; if( s->magic != 0x5b11 ) { T.bad = "a split string is used that is not one (released?)"; return NULL; } return s; }
int libcsplit_narrow_string_split( const char *str, size_t size, char d, libcsplit_narrow_split_string_t **p, libcerror_error_t **e )
{
	ssplit_t *s; size_t i, st = 0, n;
	if( str == NULL || size > SSIZE_MAX || p == NULL || *p != NULL || tool_ev( EV_SPLIT ) ) return efail( e, "libcsplit_narrow_string_split" );
	s = calloc( 1, sizeof *s ); s->magic = 0x5b11;
	n = strnlen( str, size );
	if( n > 0 )
	{
		s->copy = malloc( n + 1 ); memcpy( s->copy, str, n ); s->copy[ n ] = 0;
		for( i = 0; i <= n; i++ ) if( i == n || str[ i ] == d )
		{
			s->copy[ i ] = 0;
			if( s->n == s->room ) { s->room = s->room ? 4 * s->room : 8; s->s = realloc( s->s, s->room * sizeof *s->s ); s->l = realloc( s->l, s->room * sizeof *s->l ); }
			{ s->s[ s->n ] = malloc( i - st + 1 ); memcpy( s->s[ s->n ], s->copy + st, i - st + 1 ); s->l[ s->n++ ] = i - st + 1; }
			st = i + 1;
		}
	}
	*p = (libcsplit_narrow_split_string_t *) s; T.splits++; return ok( 1 );
}
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **p, libcerror_error_t **e )
{
	ssplit_t *s; int r = 1;
	if( p == NULL ) return efail( e, "libcsplit_narrow_split_string_free" );
	if( *p == NULL ) return ok( 1 );
	s = sp_( *p ); *p = NULL;
	if( s == NULL ) return efail( e, "libcsplit_narrow_split_string_free" );
	if( tool_ev( EV_SPLITFREE ) ) r = efail( e, "libcsplit_narrow_split_string_free" );
	for( int i = 0; i < s->n; i++ ) free( s->s[ i ] );
	free( s->s ); free( s->l ); free( s->copy ); s->magic = 0xdead; free( s ); T.splits--; return ok( r );
}
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *p, int *n, libcerror_error_t **e )
{
	ssplit_t *s = sp_( p );
	if( s == NULL || n == NULL || tool_ev( EV_SPLITN ) ) return efail( e, "libcsplit_narrow_split_string_get_number_of_segments" );
	*n = s->n; return ok( 1 );
}
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *p, int i, char **q, size_t *l, libcerror_error_t **e )
{
	ssplit_t *s = sp_( p ); int f = tool_ev( EV_SPLITSEG );
	if( s == NULL || i < 0 || i >= s->n || q == NULL || l == NULL || f == 1 ) return efail( e, "libcsplit_narrow_split_string_get_segment_by_index" );
	if( f == 2 ) { *q = NULL; *l = 0; return ok( 1 ); }
	*q = s->s[ i ]; *l = s->l[ i ]; return ok( 1 );
}
int libcsplit_narrow_split_string_set_segment_by_index( libcsplit_narrow_split_string_t *p, int i, char *q, size_t l, libcerror_error_t **e ) { (void) p; (void) i; (void) q; (void) l; return efail( e, "set_segment" ); }
/* running */
static void tool_init( void )
{
	cookie_io_functions_t o = { NULL, w_out, NULL, NULL }, e = { NULL, w_err, NULL, NULL };
	tool_main = dlsym( mc_dl, "mc_tool_main" );
	if( tool_main == NULL ) { fprintf( stderr, "no main function\n" ); _exit( 2 ); }
	t_out = fopencookie( NULL, "w", o ); t_err = fopencookie( NULL, "w", e );
	setvbuf( t_out, NULL, _IONBF, 0 ); setvbuf( t_err, NULL, _IONBF, 0 );
	real_stdout = stdout; real_stderr = stderr;
	for( int i = 0; i < mc_nseg; i++ ) { tool_seg[ i ] = malloc( mc_wlen[ i ] ); rawcpy( tool_seg[ i ], mc_wseg[ i ], mc_wlen[ i ] ); }
	T.decimal = '.'; mc_win_event = strstr( mc_tag, "break" ) ? 1 : 0;
}
static void tool_reset( void ) { T.fail = NULL; T.read = NULL; T.at = NULL; T.leave = NULL; T.exists = NULL; T.decimal = '.'; }
static const char *tool_version; /* version text, learned from the header */
static void tool_run( int argc, char *const *argv )
{
	int r; extern long mc_err_live; static int drained;
	for( int i = 0; i < mc_nseg; i++ ) rawcpy( mc_wseg[ i ], tool_seg[ i ], mc_wlen[ i ] );
	T.nout = T.nerr = 0; T.out[ 0 ] = T.err[ 0 ] = 0; T.nev = T.failed = T.fail_kinds = 0; T.pos = 0; T.reads = 0; T.big_read = 0; T.files = T.opens = T.splits = T.opened = 0; T.name[ 0 ] = 0;
	if( T.reads_max == 0 ) T.reads_max = 1000000;
	T.verbose = 0; T.bad = NULL; T.status = -1; T.ended = 0; T.in_handler = 0; cn_stream = NULL; libcnotify_verbose = 0;
	memset( T.handler, 0, sizeof T.handler ); memset( T.closed, 0, sizeof T.closed );
	if( !T.stdin_open ) T.closed[ 0 ] = 1;
	mc_err_live = 0; tool_base_live = mc_live; mc_fail = tool_fail_alloc; optind = 0; optarg = NULL; opterr = 1;
	clearerr( t_out ); clearerr( t_err ); setvbuf( t_out, NULL, _IONBF, 0 ); setvbuf( t_err, NULL, _IONBF, 0 );
	(void) drained;
	stdout = t_out; stderr = t_err; T.running = 1;
	r = setjmp( tool_jb );
	if( r == 0 ) { T.status = tool_main( argc, argv ) & 255; T.ended = 0; }
	if( r != 3 && T.ended != 2 ) { fflush( t_out ); fflush( t_err ); }
	T.running = 0; stdout = real_stdout; stderr = real_stderr; mc_fail = NULL;
}
/* the Windows variant: its characters from 0x100 on in the bytes that stand for them (mc/win/win.c) */
__attribute__(( unused )) static int tool_wide( void ) { return strstr( mc_tag, "win" ) != NULL; }
__attribute__(( unused )) static int tool_wchar( unsigned c, char *p )
{
	if( c < 0x100 ) { p[ 0 ] = c; return 1; }
	if( c < 0x800 ) { p[ 0 ] = 0xc0 | c >> 6; p[ 1 ] = 0x80 | ( c & 63 ); return 2; }
	p[ 0 ] = 0xe0 | c >> 12; p[ 1 ] = 0x80 | ( c >> 6 & 63 ); p[ 2 ] = 0x80 | ( c & 63 ); return 3;
}
__attribute__(( unused )) static char *tool_wtext( const char *f, unsigned c )     /* f with each \1 replaced by the character */
{
	static char b[ 256 ]; int n = 0;
	for( ; *f; f++ ) if( *f == 1 ) n += tool_wchar( c, b + n ); else b[ n++ ] = *f;
	b[ n ] = 0; return b;
}
/* what was printed */
static const char *const dg_label[] = { "MD5", "SHA1", "SHA224", "SHA256", "SHA512" };
typedef struct { int seen[ 5 ]; char hex[ 5 ][ 132 ]; int nd; int aborted, usage, copyright, other, version; char first_other[ 80 ]; } tout_t;
static void tool_parse( tout_t *o )
{
	char *p = T.out, *q, buf[ 512 ]; int ln = 0;
	memset( o, 0, sizeof *o );
	for( ; *p; p = *q ? q + 1 : q, ln++ )
	{
		int k, hit = 0; size_t l;
		q = strchrnul( p, '\n' ); l = q - p; if( l >= sizeof buf ) l = sizeof buf - 1;
		memcpy( buf, p, l ); buf[ l ] = 0;
		if( l == 0 ) continue;
		if( ln == 0 && !strncmp( buf, "hmacsum ", 8 ) && buf[ 8 ] >= '0' && buf[ 8 ] <= '9' ) { o->version = 1; continue; }
		for( k = 0; k < 5; k++ )
		{
			size_t n = strlen( dg_label[ k ] );
			if( !strncmp( buf, dg_label[ k ], n ) && !strncmp( buf + n, " hash calculated over data:", 27 ) )
			{
				char *h = buf + n + 27; while( *h == '\t' || *h == ' ' ) h++;
				o->seen[ k ]++; o->nd++; hit = 1; snprintf( o->hex[ k ], sizeof o->hex[ k ], "%s", h );
				if( *q != '\n' ) strcat( o->hex[ k ], "~" );
			}
		}
		if( hit ) continue;
		if( strstr( buf, "ABORTED" ) ) o->aborted++;
		else if( !strncmp( buf, "Usage: hmacsum", 14 ) ) o->usage++;
		else if( !strncmp( buf, "Copyright (C)", 13 ) ) o->copyright++;
		else if( !o->usage && !o->copyright && !strstr( buf, "Use hmacsum" ) && !strstr( buf, "of the data in a file" ) ) { o->other++; snprintf( o->first_other, sizeof o->first_other, "%.79s", buf ); }
	}
}
static char tool_want[ 5 ][ 132 ];
static void tool_digests( const uint8_t *d, size_t n )
{
	static const int alg[] = { 0, 1, 2, 3, 4 }; uint8_t h[ 64 ];
	for( int k = 0; k < 5; k++ ) { ref_digest( alg[ k ], d, n, h ); strcpy( tool_want[ k ], mc_hex( h, ref_dlen[ alg[ k ] ] ) ); }
}
/* exactly the digests in mask, all of them right */
static const char *tool_exact( const tout_t *o, int mask )
{
	static char b[ 512 ];
	for( int k = 0; k < 5; k++ )
	{
		if( ( mask >> k & 1 ) != o->seen[ k ] ) { snprintf( b, sizeof b, "%d lines with the %s digest instead of %d", o->seen[ k ], dg_label[ k ], mask >> k & 1 ); return b; }
		if( o->seen[ k ] && strcmp( o->hex[ k ], tool_want[ k ] ) ) { snprintf( b, sizeof b, "prints %s %s instead of %s", dg_label[ k ], o->hex[ k ], tool_want[ k ] ); return b; }
	}
	if( o->other ) { snprintf( b, sizeof b, "prints something else: %s", o->first_other ); return b; }
	return NULL;
}
/* the digest types a list names, by the documented names */
__attribute__(( unused )) static int tool_named( const char *s, size_t n )
{
	static const char *num[] = { "", "1", "224", "256", "512" }; char b[ 16 ];
	for( int up = 0; up < 2; up++ ) for( int k = 0; k < 5; k++ )
	{
		if( k == 0 ) { if( n == 3 && !memcmp( s, up ? "MD5" : "md5", 3 ) ) return 1; continue; }
		for( int sep = 0; sep < 3; sep++ ) { int l = sprintf( b, "%s%s%s", up ? "SHA" : "sha", sep == 0 ? "" : sep == 1 ? "-" : "_", num[ k ] ); if( (size_t) l == n && !memcmp( s, b, n ) ) return 1 << k; }
	}
	return 0;
}
__attribute__(( unused )) static int tool_mask_of( const char *s )
{
	int m = 1; size_t st = 0, n = strlen( s );
	for( size_t i = 0; i <= n; i++ ) if( i == n || s[ i ] == ',' ) { m |= tool_named( s + st, i - st ); st = i + 1; }
	return m;
}
static const char *tool_argv_text( int argc, char *const *argv )
{
	static char b[ 1024 ]; size_t o = 0;
	b[ 0 ] = 0;
	for( int i = 1; i < argc && o < sizeof b - 140; i++ ) o += snprintf( b + o, 130, "%s'%s'", i > 1 ? " " : "", argv[ i ] );
	return b;
}
#endif
