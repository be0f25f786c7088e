/* Entry points of gcc's -fsanitize=thread instrumentation, served by the
 * harness: MC_ACCESS( address, size, is_write ) sees every access of the
 * instrumented code that the compiler could not prove local. Include once. */
#ifndef MC_TSANRT_H
#define MC_TSANRT_H
#define MC_RW( n ) \
	void __tsan_read##n( void *a ) { MC_ACCESS( a, n, 0 ); } void __tsan_write##n( void *a ) { MC_ACCESS( a, n, 1 ); } \
	void __tsan_unaligned_read##n( void *a ) { MC_ACCESS( a, n, 0 ); } void __tsan_unaligned_write##n( void *a ) { MC_ACCESS( a, n, 1 ); } \
	void __tsan_read##n##_pc( void *a, void *p ) { (void) p; MC_ACCESS( a, n, 0 ); } void __tsan_write##n##_pc( void *a, void *p ) { (void) p; MC_ACCESS( a, n, 1 ); } \
	void __tsan_volatile_read##n( void *a ) { MC_ACCESS( a, n, 0 ); } void __tsan_volatile_write##n( void *a ) { MC_ACCESS( a, n, 1 ); } \
	void __tsan_unaligned_volatile_read##n( void *a ) { MC_ACCESS( a, n, 0 ); } void __tsan_unaligned_volatile_write##n( void *a ) { MC_ACCESS( a, n, 1 ); }
MC_RW( 1 ) MC_RW( 2 ) MC_RW( 4 ) MC_RW( 8 ) MC_RW( 16 )
void __tsan_read_range( void *a, unsigned long n ) { MC_ACCESS( a, n, 0 ); }
void __tsan_write_range( void *a, unsigned long n ) { MC_ACCESS( a, n, 1 ); }
void __tsan_func_entry( void *p ) { (void) p; }
void __tsan_func_exit( void ) {}
void __tsan_init( void ) {}
void __tsan_vptr_update( void **a, void *b ) { (void) b; MC_ACCESS( a, 8, 1 ); }
void __tsan_vptr_read( void **a ) { MC_ACCESS( a, 8, 0 ); }
void __tsan_atomic_thread_fence( int o ) { (void) o; }
void __tsan_atomic_signal_fence( int o ) { (void) o; }
#define MC_AT( b, T ) \
	T __tsan_atomic##b##_load( const volatile T *a, int o ) { (void) o; MC_ACCESS( (void *) a, sizeof( T ), 0 ); return *a; } \
	void __tsan_atomic##b##_store( volatile T *a, T v, int o ) { (void) o; MC_ACCESS( (void *) a, sizeof( T ), 1 ); *a = v; } \
	T __tsan_atomic##b##_exchange( volatile T *a, T v, int o ) { T r; (void) o; MC_ACCESS( (void *) a, sizeof( T ), 1 ); r = *a; *a = v; return r; } \
	T __tsan_atomic##b##_fetch_add( volatile T *a, T v, int o ) { T r; (void) o; MC_ACCESS( (void *) a, sizeof( T ), 1 ); r = *a; *a = r + v; return r; } \
	T __tsan_atomic##b##_fetch_sub( volatile T *a, T v, int o ) { T r; (void) o; MC_ACCESS( (void *) a, sizeof( T ), 1 ); r = *a; *a = r - v; return r; } \
	T __tsan_atomic##b##_fetch_and( volatile T *a, T v, int o ) { T r; (void) o; MC_ACCESS( (void *) a, sizeof( T ), 1 ); r = *a; *a = r & v; return r; } \
	T __tsan_atomic##b##_fetch_or( volatile T *a, T v, int o ) { T r; (void) o; MC_ACCESS( (void *) a, sizeof( T ), 1 ); r = *a; *a = r | v; return r; } \
	T __tsan_atomic##b##_fetch_xor( volatile T *a, T v, int o ) { T r; (void) o; MC_ACCESS( (void *) a, sizeof( T ), 1 ); r = *a; *a = r ^ v; return r; } \
	int __tsan_atomic##b##_compare_exchange_strong( volatile T *a, T *c, T v, int o, int f ) { (void) o; (void) f; MC_ACCESS( (void *) a, sizeof( T ), 1 ); if( *a == *c ) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak( volatile T *a, T *c, T v, int o, int f ) { (void) o; (void) f; MC_ACCESS( (void *) a, sizeof( T ), 1 ); if( *a == *c ) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##b##_compare_exchange_val( volatile T *a, T c, T v, int o, int f ) { T r; (void) o; (void) f; MC_ACCESS( (void *) a, sizeof( T ), 1 ); r = *a; if( r == c ) *a = v; return r; }
MC_AT( 8, uint8_t ) MC_AT( 16, uint16_t ) MC_AT( 32, uint32_t ) MC_AT( 64, uint64_t )
#endif
