/* The Windows variant of the tool (16 bit characters) behind the interface of the
 * other one, so that the same harnesses drive both: texts are handed over in bytes,
 * where characters from 0x100 on are coded in two or three bytes above 0x7f and
 * a byte that starts no such code is the character of that value.
 * Also what the variant needs of Windows and of its C library. */
#undef wcslen
#undef wcsncmp
#undef wcscmp
#undef wcsnicmp
#undef _wcsnicmp
#undef wcsncpy
#undef wcscpy
#undef wcschr
#undef wcsrchr
#undef wcsstr
#undef wmemcmp
#undef wmemcpy
#undef wmemset
#undef wmemchr
#undef fputws
#undef fprintf
#undef vfprintf
#undef printf
#undef snwprintf
#undef swprintf
#undef optarg
#undef optopt
#undef hmactools_getopt
#undef byte_size_string_convert
#undef byte_size_string_create
#undef digest_hash_copy_to_string
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
typedef uint16_t W; typedef void **E;
extern uint8_t *mc_win_area( size_t **used );   /* of the harness: 1 GiB that stays, up to a page that cannot be touched */
extern unsigned long mc_win_event;                /* of the harness: what the interrupt is */
extern int close( int );
/* -- texts */
static size_t wlen( const W *s ) { size_t n = 0; while( s[ n ] ) n++; return n; }
static int dec( const uint8_t *s, size_t n, unsigned *c )
{
	unsigned v;
	if( n >= 2 && s[ 0 ] >= 0xc4 && s[ 0 ] <= 0xdf && ( s[ 1 ] & 0xc0 ) == 0x80 ) { *c = ( s[ 0 ] & 31 ) << 6 | ( s[ 1 ] & 63 ); return 2; }
	if( n >= 3 && ( s[ 0 ] & 0xf0 ) == 0xe0 && ( s[ 1 ] & 0xc0 ) == 0x80 && ( s[ 2 ] & 0xc0 ) == 0x80 && ( v = ( s[ 0 ] & 15 ) << 12 | ( s[ 1 ] & 63 ) << 6 | ( s[ 2 ] & 63 ) ) >= 0x800 ) { *c = v; return 3; }
	*c = s[ 0 ]; return 1;
}
static int enc( unsigned c, char *p )
{
	if( c < 0x100 ) { p[ 0 ] = c; return 1; }
	if( c < 0x800 ) { p[ 0 ] = 0xc0 | c >> 6; p[ 1 ] = 0x80 | ( c & 63 ); return 2; }
	p[ 0 ] = 0xe0 | c >> 12; p[ 1 ] = 0x80 | ( c >> 6 & 63 ); p[ 2 ] = 0x80 | ( c & 63 ); return 3;
}
static size_t widen( W *w, const char *s, size_t n ) { size_t k = 0; unsigned c; for( size_t i = 0; i < n; ) { i += dec( (const uint8_t *) s + i, n - i, &c ); if( w ) w[ k ] = c; k++; } return k; }
static size_t narrow( char *p, size_t room, const W *w, size_t n ) { size_t k = 0; char b[ 4 ]; for( size_t i = 0; i < n; i++ ) { int l = enc( w[ i ], b ); for( int j = 0; j < l; j++, k++ ) if( k < room ) p[ k ] = b[ j ]; } return k; }
/* room for count characters in the area, at the end of what is left of it (top is the part that cannot be touched) */
static W *room( size_t n )
{
	size_t *u; uint8_t *top = mc_win_area( &u );
	*u += 2 * n; return (W *) ( top - *u );
}
static void forget( void ) { size_t *u; mc_win_area( &u ); *u = 0; }
/* -- output */
static size_t fmt( char *o, size_t cap, const char *f, va_list a )
{
	size_t k = 0; char d[ 64 ], b[ 4200 ];
#define PUT( p, n ) do { const char *p_ = ( p ); size_t n_ = ( n ); for( size_t i_ = 0; i_ < n_; i_++, k++ ) if( k < cap ) o[ k ] = p_[ i_ ]; } while( 0 )
	while( *f )
	{
		size_t n = 0; int l = 0, z = 0, st[ 2 ], ns = 0;
		if( *f != '%' ) { PUT( f, 1 ); f++; continue; }
		if( f[ 1 ] == '%' ) { PUT( "%", 1 ); f += 2; continue; }
		d[ n++ ] = *f++;
		while( *f && strchr( "-+ #0123456789.*hlzjtqL", *f ) && n < 60 ) { if( *f == 'l' ) l++; if( strchr( "zjtq", *f ) ) z = 1; if( *f == '*' ) st[ ns++ & 1 ] = va_arg( a, int ); d[ n++ ] = *f++; }
		d[ n++ ] = *f; d[ n ] = 0;
#define CONV( x ) ( ns == 0 ? snprintf( b, sizeof b, d, x ) : ns == 1 ? snprintf( b, sizeof b, d, st[ 0 ], x ) : snprintf( b, sizeof b, d, st[ 0 ], st[ 1 ], x ) )
		switch( *f++ )
		{
			case 's': if( l && n == 3 ) { const W *w = va_arg( a, const W * ); size_t m = w ? wlen( w ) : 0; for( size_t i = 0; i < m; i++ ) { char e[ 4 ]; int q = enc( w[ i ], e ); PUT( e, q ); } }
				else if( n == 2 ) { const char *s = va_arg( a, const char * ); if( s == NULL ) s = "(null)"; PUT( s, strlen( s ) ); }
				else { if( l ) { const W *w = va_arg( a, const W * ); static char t[ 4096 ]; size_t m = narrow( t, sizeof t - 1, w, wlen( w ) ); t[ m < sizeof t ? m : sizeof t - 1 ] = 0; memmove( strchr( d, 'l' ), strchr( d, 'l' ) + 1, strlen( strchr( d, 'l' ) ) ); CONV( t ); } else CONV( va_arg( a, const char * ) ); PUT( b, strlen( b ) ); }
				break;
			case 'c': { unsigned c = va_arg( a, int ); char e[ 4 ]; int q = enc( l ? c & 0xffff : c & 0xff, e ); PUT( e, q ); break; }
			case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': if( l || z ) CONV( va_arg( a, long ) ); else CONV( va_arg( a, int ) ); PUT( b, strlen( b ) ); break;
			case 'p': CONV( va_arg( a, void * ) ); PUT( b, strlen( b ) ); break;
			case 'f': case 'g': case 'e': CONV( va_arg( a, double ) ); PUT( b, strlen( b ) ); break;
			default: PUT( d, n ); break;
		}
	}
	return k;
}
int mcw_vfprintf( FILE *s, const char *f, va_list a )
{
	size_t *u, n; char *b = (char *) mc_win_area( &u ) - ( 1 << 30 ) + 4096;      /* its other end */
	n = fmt( b, 1 << 26, f, a );
	return fwrite( b, 1, n, s ) == n ? (int) n : -1;
}
int mcw_fprintf( FILE *s, const char *f, ... ) { va_list a; int r; va_start( a, f ); r = mcw_vfprintf( s, f, a ); va_end( a ); return r; }
int mcw_printf( const char *f, ... ) { va_list a; int r; va_start( a, f ); r = mcw_vfprintf( stdout, f, a ); va_end( a ); return r; }
int mcw_snwprintf( W *t, size_t size, const W *f, ... )
{
	char nf[ 512 ], b[ 4096 ]; size_t n, k; W w[ 4096 ]; va_list a;
	n = narrow( nf, sizeof nf - 1, f, wlen( f ) ); nf[ n < sizeof nf ? n : sizeof nf - 1 ] = 0;
	va_start( a, f ); n = fmt( b, sizeof b - 1, nf, a ); va_end( a ); if( n > sizeof b - 1 ) return -1;
	k = widen( w, b, n );
	for( size_t i = 0; i < k && i + 1 < size; i++ ) t[ i ] = w[ i ];
	if( size > 0 ) t[ k < size ? k : size - 1 ] = 0;
	return k;
}
/* -- the C library */
size_t mcw_wcslen( const W *s ) { return wlen( s ); }
int mcw_wcsncmp( const W *a, const W *b, size_t n ) { for( ; n; n--, a++, b++ ) { if( *a != *b ) return *a < *b ? -1 : 1; if( !*a ) break; } return 0; }
int mcw_wcscmp( const W *a, const W *b ) { return mcw_wcsncmp( a, b, (size_t) -1 ); }
static W low( W c ) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int mcw_wcsnicmp( const W *a, const W *b, size_t n ) { for( ; n; n--, a++, b++ ) { if( low( *a ) != low( *b ) ) return low( *a ) < low( *b ) ? -1 : 1; if( !*a ) break; } return 0; }
int mcw_wmemcmp( const W *a, const W *b, size_t n ) { for( ; n; n--, a++, b++ ) if( *a != *b ) return *a < *b ? -1 : 1; return 0; }
W *mcw_wmemcpy( W *d, const W *s, size_t n ) { return memcpy( d, s, 2 * n ); }
W *mcw_wmemset( W *d, W c, size_t n ) { for( size_t i = 0; i < n; i++ ) d[ i ] = c; return d; }
W *mcw_wmemchr( const W *s, W c, size_t n ) { for( ; n; n--, s++ ) if( *s == c ) return (W *) s; return NULL; }
W *mcw_wcsncpy( W *d, const W *s, size_t n ) { size_t i = 0; for( ; i < n && s[ i ]; i++ ) d[ i ] = s[ i ]; for( ; i < n; i++ ) d[ i ] = 0; return d; }
W *mcw_wcscpy( W *d, const W *s ) { return memcpy( d, s, 2 * wlen( s ) + 2 ); }
W *mcw_wcschr( const W *s, W c ) { for( ; ; s++ ) { if( *s == c ) return (W *) s; if( !*s ) return NULL; } }
W *mcw_wcsrchr( const W *s, W c ) { const W *r = NULL; for( ; ; s++ ) { if( *s == c ) r = s; if( !*s ) return (W *) r; } }
W *mcw_wcsstr( const W *s, const W *t ) { size_t n = wlen( t ); for( ; ; s++ ) { if( !mcw_wcsncmp( s, t, n ) ) return (W *) s; if( !*s ) return NULL; } }
int mcw_fputws( const W *s, FILE *f ) { char b[ 4 ]; for( ; *s; s++ ) { int n = enc( *s, b ); if( fwrite( b, 1, n, f ) != (size_t) n ) return -1; } return 0; }
/* -- Windows */
void *GetProcessHeap( void ) { return (void *) 1; }
void *HeapAlloc( void *h, unsigned long f, size_t n ) { (void) h; return f & 8 ? calloc( 1, n ) : malloc( n ); }
void *HeapReAlloc( void *h, unsigned long f, void *p, size_t n ) { (void) h; (void) f; return p ? realloc( p, n ) : NULL; }
int HeapFree( void *h, unsigned long f, void *p ) { (void) h; (void) f; free( p ); return 1; }
unsigned SetErrorMode( unsigned m ) { (void) m; return 0; }
int DisableThreadLibraryCalls( void *m ) { return m != NULL; }
unsigned long GetLastError( void ) { return 0; }
int _close( int fd ) { return close( fd ); }
static int (*ctrl)( unsigned long );
static void on_signal( int s ) { int (*h)( unsigned long ) = ctrl; (void) s; if( h == NULL || !h( mc_win_event ) ) abort(); }
int SetConsoleCtrlHandler( int (*h)( unsigned long ), int add )
{
	if( h == NULL ) return 1;
	if( add ) { int (*o)( unsigned long ) = ctrl; ctrl = h; if( signal( SIGINT, on_signal ) == SIG_ERR ) { ctrl = o; return 0; } return 1; }
	if( ctrl != h ) return 0;
	if( signal( SIGINT, SIG_DFL ) == SIG_ERR ) return 0;
	ctrl = NULL; return 1;
}
/* -- support libraries */
typedef intptr_t S;
extern int libcfile_file_open( void *, const char *, int, E ); extern void libcerror_error_set( E, int, int, const char *, ... );
extern int libcsplit_narrow_string_split( const char *, size_t, char, S **, E ); extern int libcsplit_narrow_split_string_free( S **, E ); extern int libcsplit_narrow_split_string_get_number_of_segments( S *, int *, E );
extern int libcsplit_narrow_split_string_get_segment_by_index( S *, int, char **, size_t *, E );
static char *low_end( size_t n ) { size_t *u; (void) n; return (char *) mc_win_area( &u ) - ( 1 << 30 ) + ( 1 << 27 ); }
int libcfile_file_open_wide( void *f, const W *n, int a, E e )
{
	size_t l = n ? wlen( n ) : 0; char *b = low_end( 3 * l + 1 );
	if( n ) b[ narrow( b, 3 * l + 1, n, l ) ] = 0;
	return libcfile_file_open( f, n ? b : NULL, a, e );
}
int libcsplit_wide_string_split( const W *s, size_t n, W d, S **p, E e )
{
	size_t l = 0, k = 0; char *b, c;
	if( s == NULL || n > SSIZE_MAX ) return libcsplit_narrow_string_split( NULL, n, 0, p, e );
	while( l < n && s[ l ] ) l++;
	b = low_end( 3 * l + 2 );
	/* a separator beyond the bytes is none of the characters of the coded text: handed over as 1, like its occurrences */
	c = d < 0x80 ? (char) d : 1;
	for( size_t i = 0; i < l; i++ ) if( s[ i ] == d ) b[ k++ ] = c; else k += enc( s[ i ], b + k );
	b[ k ] = 0;
	return libcsplit_narrow_string_split( b, n > l ? k + 1 : k, c, p, e );
}
int libcsplit_wide_split_string_free( S **p, E e ) { return libcsplit_narrow_split_string_free( p, e ); }
int libcsplit_wide_split_string_get_number_of_segments( S *p, int *n, E e ) { return libcsplit_narrow_split_string_get_number_of_segments( p, n, e ); }
int libcsplit_wide_split_string_get_segment_by_index( S *p, int i, W **q, size_t *l, E e )
{
	char *s = NULL; size_t n = 0, k; int r;
	if( q == NULL || l == NULL ) return libcsplit_narrow_split_string_get_segment_by_index( p, i, NULL, NULL, e );
	r = libcsplit_narrow_split_string_get_segment_by_index( p, i, &s, &n, e );
	if( r != 1 ) return r;
	if( s == NULL ) { *q = NULL; *l = n; return r; }
	k = widen( NULL, s, n - 1 ); *q = room( k + 1 ); widen( *q, s, n - 1 ); ( *q )[ k ] = 0; *l = k + 1;
	return r;
}
/* -- what the harnesses call */
extern int wmain( int, W *const * ); extern __WINT_TYPE__ mcw_getopt( int, W *const *, const W * ); extern W *mcw_optarg; extern __WINT_TYPE__ mcw_optopt; extern int optind;
extern int mcw_size_convert( const W *, size_t, uint64_t *, E ); extern int mcw_size_create( W *, size_t, uint64_t, int, E ); extern int mcw_hash_string( const uint8_t *, size_t, W *, size_t, E );
static W *text( const char *s, size_t n ) { size_t k = widen( NULL, s, n ); W *w = room( k ); widen( w, s, n ); return w; }
static W *const *vector( int argc, char *const *argv )
{
	W **v; size_t n = ( argc + 1 ) * sizeof *v;
	W *t[ 16 ], **q = argc < 16 ? t : NULL; size_t *u;
	forget();
	if( q == NULL ) { uint8_t *top = mc_win_area( &u ); q = (W **) ( top - ( 1 << 29 ) ); }
	for( int i = argc - 1; i >= 0; i-- ) q[ i ] = text( argv[ i ], strlen( argv[ i ] ) + 1 );
	{ uint8_t *top = mc_win_area( &u ); *u = ( *u + n + 7 ) & ~7UL; v = (W **) ( top - *u ); }
	for( int i = 0; i < argc; i++ ) v[ i ] = q[ i ];
	v[ argc ] = NULL;
	return v;
}
int mc_tool_main( int argc, char *const *argv ) { W *const *v = vector( argc, argv ); ctrl = NULL; return wmain( argc, v ); }
int byte_size_string_convert( const char *s, size_t n, uint64_t *z, E e )
{
	if( s == NULL ) return mcw_size_convert( NULL, n, z, e );
	forget();
	{ size_t l = strlen( s ); return mcw_size_convert( text( s, l + 1 ), n <= l ? widen( NULL, s, n ) : n, z, e ); }
}
int byte_size_string_create( char *s, size_t n, uint64_t z, int un, E e )
{
	int r; W *w = NULL;
	forget();
	if( s != NULL && n < 1 << 20 ) { w = room( n ); for( size_t i = 0; i < n; i++ ) w[ i ] = (uint8_t) s[ i ]; w[ -1 ] = 0x7777; }
	r = mcw_size_create( w, n, z, un, e );
	if( w ) { for( size_t i = 0; i < n; i++ ) s[ i ] = w[ i ] > 0xff ? 0x1a : w[ i ]; if( w[ -1 ] != 0x7777 ) s[ -1 ] = 0x1a; }
	return r;
}
int digest_hash_copy_to_string( const uint8_t *d, size_t n, char *s, size_t z, E e )
{
	int r; W *w = NULL;
	forget();
	size_t k = z < 1 << 26 ? z : n < 32 ? 2 * n + 1 : 64;      /* how much of the destination is there */
	if( s != NULL ) { w = room( k ); for( size_t i = 0; i < k; i++ ) w[ i ] = (uint8_t) s[ i ]; w[ -1 ] = 0x7777; }
	r = mcw_hash_string( d, n, w, z, e );
	if( w ) { for( size_t i = 0; i < k; i++ ) s[ i ] = w[ i ] > 0xff ? 0x1a : w[ i ]; if( w[ -1 ] != 0x7777 ) s[ -1 ] = 0x1a; }
	return r;
}
char *optarg; int optopt;
int hmactools_getopt( int argc, char *const *argv, const char *o )
{
	static W *const *v; static W *wo; W *a; __WINT_TYPE__ r;
	if( v == NULL ) { v = vector( argc, argv ); wo = text( o, strlen( o ) + 1 ); }      /* the harness sets all variables back before the first call */
	r = mcw_getopt( argc, v, wo ); optopt = mcw_optopt < 0x100 ? (char) mcw_optopt : (int) mcw_optopt;
	a = mcw_optarg; optarg = NULL;
	if( a )
	{
		for( int i = 0; i < argc; i++ ) if( a >= v[ i ] && a <= v[ i ] + wlen( v[ i ] ) ) { char b[ 4 ]; optarg = argv[ i ]; for( const W *q = v[ i ]; q < a; q++ ) optarg += enc( *q, b ); }
		if( !optarg ) optarg = (char *) -1;
	}
	return r == (__WINT_TYPE__) -1 ? -1 : (int) r;
}
