/* Embedded interpreter for the harnesses of the Python extension. */
#ifndef MC_PY_H
#define MC_PY_H
#include "h.h"
#define PY_SSIZE_T_CLEAN
#include <Python.h>
static PyObject *mod, *type_[ NALG ], *fcalc[ NALG ], *fhmac[ NALG ], *fversion, *s_update, *s_finalize, *s_init, *s_new, *no_args;
static uint8_t msg[ 8192 ], key[ 8192 ];
enum { ODD = 14 };
static PyObject *odd[ ODD ];   /* things that are not bytes objects */
static const char *odd_name[ ODD ] = { "None", "int", "str", "bytearray", "memoryview", "list", "tuple", "bytes type", "float", "object that claims to be bytes",
	"object whose class cannot be read", "object whose class raises an exception without repr", "object with __bytes__", "object with a long class error" };
static const char *odd_src =
	"class Liar:\n  __class__ = bytes\n"
	"class Raiser:\n  @property\n  def __class__(self): raise RuntimeError('no class')\n"
	"class Bad(Exception):\n  def __repr__(self): raise ValueError('no repr')\n"
	"class Raiser2:\n  @property\n  def __class__(self): raise Bad()\n"
	"class ToB:\n  def __bytes__(self): return b'abc'\n"
	"class Raiser3:\n  @property\n  def __class__(self): raise RuntimeError('x' * 5000)\n"
	"class Sub(bytes): pass\n"
	"odd = [None, 5, 'text', bytearray(b'abc'), memoryview(b'abc'), [1], (1,), bytes, 1.5, Liar(), Raiser(), Raiser2(), ToB(), Raiser3()]\n";
static PyObject *sub_type;

/* ---- what the extension does with the interpreter */
static __thread int lock_given_up;
static const char *py_complaint;
static long none_refs, n_released;
static void (*on_save)( void ), (*on_restore)( void );
__attribute__(( target( "general-regs-only" ), used )) void mc_py_call( const char *name )
{
	if( lock_given_up && py_complaint == NULL && strncmp( name, "PyGILState_", 11 ) && strncmp( name, "PyMem_Raw", 9 ) ) py_complaint = name;
}
PyThreadState *__wrap_PyEval_SaveThread( void )
{
	PyThreadState *t = PyEval_SaveThread();
	lock_given_up++; n_released++;
	if( on_save ) on_save();
	return t;
}
void __wrap_PyEval_RestoreThread( PyThreadState *t )
{
	if( on_restore ) on_restore();
	PyEval_RestoreThread( t );
	lock_given_up--;
}
void __wrap_Py_IncRef( PyObject *o ) { mc_py_call( "Py_IncRef" ); if( o == Py_None ) none_refs++; Py_IncRef( o ); }
void __wrap_Py_DecRef( PyObject *o ) { mc_py_call( "Py_DecRef" ); if( o == Py_None ) none_refs--; Py_DecRef( o ); }
void __wrap__Py_Dealloc( PyObject *o ) { mc_py_call( "_Py_Dealloc" ); _Py_Dealloc( o ); }

/* ---- the interpreter's own memory */
static PyMemAllocatorEx py_orig[ 2 ];
static long py_live, py_nalloc; static int (*py_fail)( long k );
static void *pa_malloc( void *c, size_t n ) { PyMemAllocatorEx *a = c; if( py_fail && py_fail( py_nalloc++ ) ) return NULL; void *p = a->malloc( a->ctx, n ); if( p ) py_live++; return p; }
static void *pa_calloc( void *c, size_t m, size_t n ) { PyMemAllocatorEx *a = c; if( py_fail && py_fail( py_nalloc++ ) ) return NULL; void *p = a->calloc( a->ctx, m, n ); if( p ) py_live++; return p; }
static void *pa_realloc( void *c, void *o, size_t n ) { PyMemAllocatorEx *a = c; if( py_fail && py_fail( py_nalloc++ ) ) return NULL; void *p = a->realloc( a->ctx, o, n ); if( p && !o ) py_live++; return p; }
static void pa_free( void *c, void *p ) { PyMemAllocatorEx *a = c; if( p ) py_live--; a->free( a->ctx, p ); }
static void py_own_memory( void )
{
	PyMemAllocatorDomain d[] = { PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ };
	for( int i = 0; i < 2; i++ )
	{
		PyMem_GetAllocator( d[ i ], &py_orig[ i ] );
		PyMemAllocatorEx a = { &py_orig[ i ], pa_malloc, pa_calloc, pa_realloc, pa_free };
		PyMem_SetAllocator( d[ i ], &a );
	}
}
static void py_must( int ok, const char *what ) { if( !ok ) { if( PyErr_Occurred() ) PyErr_Print(); printf( "MCVIOL 0 # %s\nMCSTOP\n", what ); fflush( stdout ); _exit( 3 ); } }
static PyObject *str( const char *s ) { return PyUnicode_InternFromString( s ); }
static void py_init( void )
{
	PyPreConfig pc; PyConfig cf; PyObject *(*init)( void ) = dlsym( mc_dl, "PyInit_pyhmac" ); char b[ 64 ]; PyObject *g;
	for( size_t i = 0; i < sizeof msg; i++ ) { msg[ i ] = mc_pat( 4, i ); key[ i ] = mc_pat( 7, i ); }
	py_must( init != NULL, "the module has no initialization function" );
	PyPreConfig_InitIsolatedConfig( &pc ); pc.allocator = PYMEM_ALLOCATOR_MALLOC; pc.utf8_mode = 1;
	Py_PreInitialize( &pc );
	py_own_memory();
	PyImport_AppendInittab( "pyhmac", init );
	PyConfig_InitIsolatedConfig( &cf ); cf.site_import = 0; cf.install_signal_handlers = 0; cf.write_bytecode = 0;
	PyConfig_SetString( &cf, &cf.program_name, L"/usr/bin/python3.12" );
	if( PyStatus_Exception( Py_InitializeFromConfig( &cf ) ) ) { fprintf( stderr, "no interpreter\n" ); _exit( 9 ); }
	PyConfig_Clear( &cf );
	mod = PyImport_ImportModule( "pyhmac" );
	py_must( mod != NULL && !PyErr_Occurred(), "the module cannot be imported" );
	for( int i = 0; i < NALG; i++ )
	{
		snprintf( b, sizeof b, "%s_context", ref_name[ i ] ); py_must( ( type_[ i ] = PyObject_GetAttrString( mod, b ) ) != NULL, b );
		snprintf( b, sizeof b, "%s_calculate", ref_name[ i ] ); py_must( ( fcalc[ i ] = PyObject_GetAttrString( mod, b ) ) != NULL, b );
		snprintf( b, sizeof b, "%s_calculate_hmac", ref_name[ i ] ); py_must( ( fhmac[ i ] = PyObject_GetAttrString( mod, b ) ) != NULL, b );
	}
	py_must( ( fversion = PyObject_GetAttrString( mod, "get_version" ) ) != NULL, "get_version" );
	s_update = str( "update" ); s_finalize = str( "finalize" ); s_init = str( "__init__" ); s_new = str( "__new__" ); no_args = PyTuple_New( 0 );
	g = PyDict_New(); PyDict_SetItemString( g, "__builtins__", PyEval_GetBuiltins() );
	{ PyObject *r = PyRun_String( odd_src, Py_file_input, g, g ); py_must( r != NULL, "test objects" ); Py_DECREF( r ); }
	{ PyObject *l = PyDict_GetItemString( g, "odd" ); for( int i = 0; i < ODD; i++ ) { odd[ i ] = PyList_GetItem( l, i ); Py_INCREF( odd[ i ] ); } }
	sub_type = PyDict_GetItemString( g, "Sub" ); Py_INCREF( sub_type );
	py_complaint = NULL;
}
static PyObject *mbytes( const uint8_t *p, size_t n, int sub )
{
	PyObject *b = PyBytes_FromStringAndSize( (const char *) p, n ), *s;
	if( !sub || b == NULL ) return b;
	s = PyObject_CallOneArg( sub_type, b ); Py_DECREF( b ); return s;
}
/* one call: at most one exception, and only with no result */
static int settle_call( PyObject *r, const char *what )
{
	if( py_complaint ) { mc_say( "%s: %s is called while the interpreter lock is given up", what, py_complaint ); py_complaint = NULL; return 1; }
	if( lock_given_up ) { mc_say( "%s: the interpreter lock is not taken back", what ); return 1; }
	if( r == NULL && !PyErr_Occurred() ) { mc_say( "%s: fails without an exception", what ); return 1; }
	if( r != NULL && PyErr_Occurred() ) { PyErr_Clear(); mc_say( "%s: succeeds with an exception pending", what ); return 1; }
	return 0;
}
static int is_digest( PyObject *r, int a, const uint8_t *want ) { return r && PyBytes_CheckExact( r ) && (size_t) PyBytes_GET_SIZE( r ) == ref_dlen[ a ] && !memcmp( PyBytes_AS_STRING( r ), want, ref_dlen[ a ] ); }
static PyObject *kw1( const char *k, PyObject *v ) { PyObject *d = PyDict_New(); PyDict_SetItemString( d, k, v ); return d; }
static PyObject *kw2( const char *k, PyObject *v, const char *k2, PyObject *v2 ) { PyObject *d = kw1( k, v ); PyDict_SetItemString( d, k2, v2 ); return d; }
#endif
