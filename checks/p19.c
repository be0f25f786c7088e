/* Life cycles of the Python objects, with memory running out.
 * v = [ alg, kind, native failing mask, interpreter failing from, interpreter failing count, op ... ]
 * Allocations are counted over the whole sequence, only while the extension is called.
 * kind 3: one call with an argument: ops are function, argument, form, times
 * kind 4: one call with arguments of some size: ops are where, size; kind 5: ops are a history and its length
 * kind 0: sequence; 1: C level constructor; 2: import of the module (in a fresh process) */
#include "py.h"
#include <sys/wait.h>
enum { NEWI, NEW, INIT, UPD, FIN, DEL, UPDNONE, CALC, HMAC, CALCBAD, UPDRAISE, ALIAS, DELPEND, CALCRAISE, HMACBAD, CNEW, NOPS };
static const char *opn[] = { "type()", "__new__()", "__init__()", "update(data)", "finalize()", "delete", "update(None)", "calculate(data)", "calculate_hmac(key, data)", "calculate(5)", "update(raising object)",
	"alias", "delete with an exception pending", "calculate(raising object)", "calculate_hmac(5, data)", "C constructor" };
static unsigned long nmask; static long nat, npy, pfrom, pcount, nfailed, nfailed_op;
static int nfail( long k, size_t n ) { (void) k; (void) n; long i = nat++; if( i < 63 && ( nmask >> i & 1 ) ) { nfailed++; nfailed_op++; return 1; } return 0; }
static int pfail( long k ) { (void) k; long i = npy++; if( i >= pfrom && i < pfrom + pcount ) { nfailed++; nfailed_op++; return 1; } return 0; }
static void arm( void ) { mc_fail = nfail; py_fail = pfail; }
static void disarm( void ) { mc_fail = NULL; py_fail = NULL; }
static PyObject *data_, *key_, *objs[ 8 ]; static int nobjs;
static uint8_t d_calc[ NALG ][ 64 ], d_hmac[ NALG ][ 64 ], d_upd[ NALG ][ 16 ][ 64 ];
static int expect( PyObject *r, int want_ok, const char *w )
{
	/* want_ok: 1 must succeed unless an allocation failed, 0 must raise, -1 either */
	if( settle_call( r, w ) ) return 1;
	if( want_ok == 0 && r != NULL ) { mc_say( "%s does not raise", w ); return 1; }
	if( want_ok == 1 && r == NULL && nfailed_op == 0 ) { mc_say( "%s raises", w ); return 1; }
	if( r != NULL && r != Py_None && PyBytes_CheckExact( r ) && Py_REFCNT( r ) != 1 ) { mc_say( "%s: the result has %zd references", w, Py_REFCNT( r ) ); return 1; }
	PyErr_Clear();
	return 0;
}
static int run( const long *v, int n )
{
	int a = v[ 0 ], bad = 0, i, valid = 0, upd = 0; PyObject *A = NULL, *B = NULL, *r, *x[ 2 ], *args[ 6 ]; Py_ssize_t rc[ 6 ]; long none0;
	args[ 0 ] = data_; args[ 1 ] = key_; args[ 2 ] = odd[ 1 ]; args[ 3 ] = odd[ 10 ]; args[ 4 ] = type_[ a ]; args[ 5 ] = odd[ 11 ];
	nat = npy = 0; nmask = v[ 2 ]; pfrom = v[ 3 ]; pcount = v[ 4 ]; nfailed = 0;
	for( i = 5; i < n && !bad; i++ )
	{
		int op = v[ i ]; const char *w = opn[ op ]; Py_ssize_t ra = A ? Py_REFCNT( A ) : 0; PyObject *was = A;
		for( int k = 0; k < 6; k++ ) rc[ k ] = Py_REFCNT( args[ k ] );
		nfailed_op = 0; none0 = none_refs; r = NULL;
		if( op != NEWI && op != NEW && op != CALC && op != HMAC && op != CALCBAD && op != CALCRAISE && op != HMACBAD && op != CNEW && A == NULL ) continue;
		if( ( op == NEWI || op == NEW || op == CNEW ) && A != NULL ) { if( B ) Py_DECREF( B ); B = A; A = NULL; if( PyErr_Occurred() ) { PyErr_Clear(); mc_say( "releasing an object leaves an exception" ); bad = 1; break; } was = NULL; }
		arm();
		switch( op )
		{
			case NEWI: r = PyObject_CallNoArgs( type_[ a ] ); disarm(); bad = expect( r, 1, w ); A = r; valid = r != NULL; upd = 0; r = NULL; break;
			case NEW: x[ 0 ] = type_[ a ]; { PyTypeObject *t = (PyTypeObject *) type_[ a ]; r = t->tp_new( t, no_args, NULL ); } disarm(); bad = expect( r, 1, w ); A = r; valid = 0; upd = 0; r = NULL; break;
			case CNEW:
			{
				char b[ 64 ]; PyObject *(*f)( void ); disarm(); snprintf( b, sizeof b, "pyhmac_%s_context_new", ref_name[ a ] ); f = dlsym( mc_dl, b );
				if( f ) { arm(); r = f(); disarm(); bad = expect( r, 1, w ); }
				A = r; valid = r != NULL; upd = 0; r = NULL; break;
			}
			case INIT: r = PyObject_CallMethodNoArgs( A, s_init ); disarm(); bad = expect( r, 1, w ); valid = r != NULL; upd = 0; if( r == NULL ) valid = -1; break;
			case UPD: r = PyObject_CallMethodOneArg( A, s_update, data_ ); disarm(); bad = expect( r, valid == 1 ? 1 : valid == 0 ? 0 : -1, w ); if( r != NULL ) upd++; else if( nfailed_op && valid == 1 && upd < 12 ) { /* the update may or may not have got to the context */ } break;
			case FIN: r = PyObject_CallMethodNoArgs( A, s_finalize ); disarm(); bad = expect( r, valid == 1 ? 1 : valid == 0 ? 0 : -1, w );
				if( !bad && r != NULL && valid == 1 && upd < 16 && !is_digest( r, a, d_upd[ a ][ upd ] ) ) { mc_say( "%s: wrong digest", w ); bad = 1; }
				valid = valid == 0 ? 0 : -1; break;
			case DEL: disarm(); Py_CLEAR( A ); if( PyErr_Occurred() ) { PyErr_Clear(); mc_say( "%s leaves an exception", w ); bad = 1; } was = NULL; break;
			case DELPEND: disarm(); PyErr_SetString( PyExc_KeyError, "pending" ); Py_CLEAR( A ); if( !PyErr_ExceptionMatches( PyExc_KeyError ) ) { mc_say( "%s replaces the exception", w ); bad = 1; } PyErr_Clear(); was = NULL; break;
			case UPDNONE: r = PyObject_CallMethodOneArg( A, s_update, Py_None ); disarm(); bad = expect( r, 0, w ); break;
			case UPDRAISE: r = PyObject_CallMethodOneArg( A, s_update, odd[ 10 ] ); disarm(); bad = expect( r, 0, w ); break;
			case CALC: r = PyObject_CallOneArg( fcalc[ a ], data_ ); disarm(); bad = expect( r, 1, w ); if( !bad && r && !is_digest( r, a, d_calc[ a ] ) ) { mc_say( "%s: wrong digest", w ); bad = 1; } break;
			case HMAC: x[ 0 ] = key_; x[ 1 ] = data_; r = PyObject_Vectorcall( fhmac[ a ], x, 2, NULL ); disarm(); bad = expect( r, 1, w ); if( !bad && r && !is_digest( r, a, d_hmac[ a ] ) ) { mc_say( "%s: wrong HMAC", w ); bad = 1; } break;
			case CALCBAD: r = PyObject_CallOneArg( fcalc[ a ], odd[ 1 ] ); disarm(); bad = expect( r, 0, w ); break;
			case CALCRAISE: r = PyObject_CallOneArg( fcalc[ a ], odd[ 11 ] ); disarm(); bad = expect( r, 0, w ); break;
			case HMACBAD: x[ 0 ] = odd[ 1 ]; x[ 1 ] = data_; r = PyObject_Vectorcall( fhmac[ a ], x, 2, NULL ); disarm(); bad = expect( r, 0, w ); break;
			case ALIAS: disarm(); if( B ) Py_DECREF( B ); B = Py_NewRef( A ); ra = Py_REFCNT( A ); break;
		}
		disarm();
		if( !bad && none_refs - none0 > ( r == Py_None ) ) { mc_say( "%s: takes %ld references to None, returns %d", w, none_refs - none0, r == Py_None ); bad = 1; }
		Py_XDECREF( r );
		for( int k = 0; k < 6 && !bad; k++ ) if( Py_REFCNT( args[ k ] ) != rc[ k ] && !( k == 4 ) ) { mc_say( "%s: the references to argument %d changed by %zd", w, k, Py_REFCNT( args[ k ] ) - rc[ k ] ); bad = 1; }
		if( !bad && was && A == was && Py_REFCNT( A ) != ra ) { mc_say( "%s: the references to the object changed by %zd", w, Py_REFCNT( A ) - ra ); bad = 1; }
		if( mc_alloc_complaint && !bad ) { mc_say( "%s: %s", w, mc_alloc_complaint ); mc_alloc_complaint = NULL; bad = 1; }
	}
	Py_CLEAR( A ); Py_CLEAR( B );
	if( !bad && PyErr_Occurred() ) { mc_say( "releasing the objects leaves an exception" ); bad = 1; }
	PyErr_Clear();
	return bad;
}
static int import_fails( const long *v );
/* one function, one argument in one place: what refers to what afterwards */
enum { FUNS = 12, FORMS = 2, ARGS = ODD + 5 };
static PyObject *marg[ ARGS ]; static const char *marg_name[ ARGS ];
static const char *funn[ FUNS ] = { "calculate(x)", "calculate_hmac(x, data)", "calculate_hmac(key, x)", "calculate_hmac(x, x)", "update(x)", "update(x) on an uninitialized object", "finalize(x)", "type(x)", "__init__(x)",
	"get_version(x)", "update(x) on a finalized object", "calculate(data, x)" };
static int call_with( const long *v )
{
	int a = v[ 0 ], f = v[ 5 ], p = v[ 6 ], form = v[ 7 ], bad = 0, want; PyObject *x = marg[ p ], *o = NULL, *m = NULL, *t = NULL, *kw = NULL, *r, *w[ 5 ]; Py_ssize_t rc[ 5 ], now; long none0; char what[ 300 ];
	int is_b = PyBytes_Check( x );
	nat = npy = 0; nmask = v[ 2 ]; pfrom = v[ 3 ]; pcount = v[ 4 ]; nfailed = nfailed_op = 0;
	snprintf( what, sizeof what, "%s %s, x = %s%s", ref_name[ a ], funn[ f ], marg_name[ p ], form ? ", by keyword" : "" );
	if( ( f >= 4 && f <= 6 ) || f == 8 || f == 10 )
	{
		if( f == 5 ) o = ( (PyTypeObject *) type_[ a ] )->tp_new( (PyTypeObject *) type_[ a ], no_args, NULL ); else o = PyObject_CallNoArgs( type_[ a ] );
		if( o == NULL ) { PyErr_Clear(); mc_say( "%s: no object", what ); return 1; }
		if( f == 10 ) { r = PyObject_CallMethodNoArgs( o, s_finalize ); Py_XDECREF( r ); }
		m = PyObject_GetAttr( o, f == 6 ? s_finalize : f == 8 ? s_init : s_update );
	}
	else m = Py_NewRef( f == 0 || f == 11 ? fcalc[ a ] : f == 7 ? type_[ a ] : f == 9 ? fversion : fhmac[ a ] );
	if( form == 0 ) t = f == 1 ? PyTuple_Pack( 2, x, data_ ) : f == 2 ? PyTuple_Pack( 2, key_, x ) : f == 3 ? PyTuple_Pack( 2, x, x ) : f == 11 ? PyTuple_Pack( 2, data_, x ) : PyTuple_Pack( 1, x );
	else { t = Py_NewRef( no_args ); kw = f == 1 ? kw2( "key", x, "data", data_ ) : f == 2 ? kw2( "key", key_, "data", x ) : f == 3 ? kw2( "key", x, "data", x ) : f == 11 ? kw2( "data", data_, "x", x ) : kw1( "data", x ); }
	want = f == 7 || f == 8 ? -1 : f == 6 || f == 9 || f == 11 || f == 5 ? 0 : f == 10 ? -1 : is_b;
	w[ 0 ] = x; w[ 1 ] = data_; w[ 2 ] = key_; w[ 3 ] = t; w[ 4 ] = o ? o : no_args;
	for( int i = 0; i < 5; i++ ) rc[ i ] = Py_REFCNT( w[ i ] );
	none0 = none_refs;
	arm(); r = PyObject_Call( m, t, kw ); disarm();
	if( r != NULL && r == o ) { mc_say( "%s returns the object", what ); bad = 1; }
	now = none_refs - none0;
	if( !bad && now > ( r == Py_None ) ) { mc_say( "%s takes %zd references to None, returns %d", what, now, r == Py_None ); bad = 1; }
	if( !bad ) bad = expect( r, want, what ); else PyErr_Clear();
	Py_XDECREF( r );
	for( int i = 0; i < 5 && !bad; i++ ) if( Py_REFCNT( w[ i ] ) != rc[ i ] )
	{
		mc_say( "%s: the references to %s changed by %zd", what, i == 0 ? "x" : i == 1 ? "the data" : i == 2 ? "the key" : i == 3 ? "the argument tuple" : "the object", Py_REFCNT( w[ i ] ) - rc[ i ] ); bad = 1;
	}
	if( !bad && mc_alloc_complaint ) { mc_say( "%s: %s", what, mc_alloc_complaint ); mc_alloc_complaint = NULL; bad = 1; }
	Py_XDECREF( kw ); Py_DECREF( t ); Py_DECREF( m );
	if( o && !bad && f != 5 && f != 10 && !nfailed && f != 8 )
	{
		/* still usable */
		r = PyObject_CallMethodOneArg( o, s_update, data_ ); if( r == NULL && is_b + 1 ) { mc_say( "%s: the object cannot be updated afterwards", what ); bad = 1; } PyErr_Clear(); Py_XDECREF( r );
		r = PyObject_CallMethodNoArgs( o, s_finalize ); if( !bad && !is_b && !is_digest( r, a, d_upd[ a ][ 1 ] ) ) { mc_say( "%s: wrong digest afterwards", what ); bad = 1; } PyErr_Clear(); Py_XDECREF( r );
	}
	Py_XDECREF( o );
	if( PyErr_Occurred() ) { PyErr_Clear(); if( !bad ) { mc_say( "%s: releasing the object leaves an exception", what ); bad = 1; } }
	return bad;
}
static PyObject *sized( size_t n ) { PyObject *b = PyBytes_FromStringAndSize( NULL, n ); for( size_t i = 0; i < n; i++ ) PyBytes_AS_STRING( b )[ i ] = msg[ i % 4099 ]; return b; }
static int call_sized( const long *v )
{
	int a = v[ 0 ], w = v[ 5 ], bad = 0; size_t n = v[ 6 ]; PyObject *x = sized( n ), *o = NULL, *r = NULL, *q[ 2 ]; Py_ssize_t rx = Py_REFCNT( x ), rd = Py_REFCNT( data_ ), rk = Py_REFCNT( key_ ), ro = 0; char what[ 120 ];
	static const char *wn[] = { "calculate", "calculate_hmac with data", "calculate_hmac with a key", "update", "two updates" };
	snprintf( what, sizeof what, "%s %s of %zu bytes", ref_name[ a ], wn[ w ], n );
	nat = npy = 0; nmask = v[ 2 ]; pfrom = v[ 3 ]; pcount = v[ 4 ]; nfailed = nfailed_op = 0;
	if( w >= 3 ) { o = PyObject_CallNoArgs( type_[ a ] ); ro = Py_REFCNT( o ); }
	for( int i = 0; i < ( w == 4 ? 2 : 1 ) && !bad; i++ )
	{
		nfailed_op = 0; arm();
		switch( w )
		{
			case 0: r = PyObject_CallOneArg( fcalc[ a ], x ); break;
			case 1: q[ 0 ] = key_; q[ 1 ] = x; r = PyObject_Vectorcall( fhmac[ a ], q, 2, NULL ); break;
			case 2: q[ 0 ] = x; q[ 1 ] = data_; r = PyObject_Vectorcall( fhmac[ a ], q, 2, NULL ); break;
			default: r = PyObject_CallMethodOneArg( o, s_update, x );
		}
		disarm();
		bad = expect( r, 1, what ); Py_XDECREF( r );
	}
	if( o && !bad ) { arm(); r = PyObject_CallMethodNoArgs( o, s_finalize ); disarm(); bad = expect( r, nfailed ? -1 : 1, what ); Py_XDECREF( r ); }
	if( !bad && ( Py_REFCNT( x ) != rx || Py_REFCNT( data_ ) != rd || Py_REFCNT( key_ ) != rk || ( o && Py_REFCNT( o ) != ro ) ) ) { mc_say( "%s changes the references to its arguments", what ); bad = 1; }
	if( !bad && mc_alloc_complaint ) { mc_say( "%s: %s", what, mc_alloc_complaint ); mc_alloc_complaint = NULL; bad = 1; }
	Py_XDECREF( o ); Py_DECREF( x ); PyErr_Clear();
	return bad;
}
static int history( const long *v )
{
	int a = v[ 0 ], k = v[ 5 ], bad = 0; long c = v[ 6 ]; PyObject *r, *o = NULL; Py_ssize_t rd = Py_REFCNT( data_ ), rt = Py_REFCNT( type_[ a ] ), r5 = Py_REFCNT( odd[ 10 ] ); char what[ 120 ]; static PyObject *m[ 3000 ];
	snprintf( what, sizeof what, "%s history %d of %ld steps", ref_name[ a ], k, c ); nat = npy = 0; nmask = 0; pfrom = pcount = 0; nfailed = nfailed_op = 0;
	if( k == 2 || k == 3 ) o = PyObject_CallNoArgs( type_[ a ] );
	for( long i = 0; i < c && !bad; i++ ) switch( k )
	{
		case 0: r = PyObject_CallNoArgs( type_[ a ] ); bad = expect( r, 1, what ); Py_XDECREF( r ); break;
		case 1: r = ( (PyTypeObject *) type_[ a ] )->tp_new( (PyTypeObject *) type_[ a ], no_args, NULL ); bad = expect( r, 1, what ); Py_XDECREF( r ); break;
		case 2: r = PyObject_CallMethodNoArgs( o, s_init ); bad = expect( r, 1, what ); Py_XDECREF( r ); break;
		case 3: r = PyObject_CallMethodOneArg( o, s_update, i & 1 ? data_ : odd[ 10 ] ); bad = expect( r, i & 1, what ); Py_XDECREF( r ); break;
		case 4: r = PyObject_CallOneArg( fcalc[ a ], i % 3 ? data_ : odd[ 10 ] ); bad = expect( r, i % 3 != 0, what ); Py_XDECREF( r ); break;
		case 5: { PyObject *q[ 2 ] = { key_, i % 3 ? data_ : odd[ 1 ] }; r = PyObject_Vectorcall( fhmac[ a ], q, 2, NULL ); bad = expect( r, i % 3 != 0, what ); Py_XDECREF( r ); break; }
		case 6: r = i < 3000 ? PyObject_CallNoArgs( type_[ ( i & 1 ? a : i ) % NALG ] ) : NULL; if( i < 3000 ) { bad = expect( r, 1, what ); m[ i ] = r; } break;
		case 7: r = PyObject_CallNoArgs( fversion ); bad = expect( r, 1, what ); Py_XDECREF( r ); break;
		case 8: r = PyObject_CallNoArgs( type_[ a ] ); bad = expect( r, 1, what ); if( r ) { PyObject *u = PyObject_CallMethodOneArg( r, s_update, data_ ), *f = PyObject_CallMethodNoArgs( r, s_finalize ); if( !bad && !is_digest( f, a, d_upd[ a ][ 1 ] ) ) { mc_say( "%s: wrong digest", what ); bad = 1; } Py_XDECREF( u ); Py_XDECREF( f ); PyErr_Clear(); } Py_XDECREF( r ); break;
	}
	if( k == 6 ) for( long i = 0; i < c && i < 3000; i++ ) { long j = c & 1 ? c - 1 - i : i; if( j < 3000 ) Py_CLEAR( m[ j ] ); }
	Py_XDECREF( o );
	if( !bad && ( Py_REFCNT( data_ ) != rd || Py_REFCNT( type_[ a ] ) != rt || Py_REFCNT( odd[ 10 ] ) != r5 ) ) { mc_say( "%s changes the references to its arguments or type", what ); bad = 1; }
	if( !bad && mc_alloc_complaint ) { mc_say( "%s: %s", what, mc_alloc_complaint ); mc_alloc_complaint = NULL; bad = 1; }
	PyErr_Clear();
	return bad;
}
static int dispatch( const long *v, int n );
int mc_eval( const long *v, int n )
{
	long live = mc_live, errs = mc_err_live, p0, g1, g2; int bad;
	if( v[ 1 ] == 2 ) return import_fails( v );
	p0 = py_live;
	bad = dispatch( v, n );
	{ long keep[] = { nat, npy, nfailed };
	if( !bad && mc_live != live ) { mc_say( "%+ld native blocks still allocated", mc_live - live ); bad = 1; }
	if( !bad && mc_err_live != errs ) { mc_say( "%+ld error objects left", mc_err_live - errs ); bad = 1; }
	if( !bad && py_live > p0 )
	{
		/* does it grow every time? */
		g1 = py_live; bad = dispatch( v, n ); g1 = py_live - g1;
		g2 = py_live; if( !bad ) bad = dispatch( v, n ); g2 = py_live - g2;
		if( !bad && g1 > 0 && g2 > 0 ) { g1 = py_live; bad = dispatch( v, n ); g1 = py_live - g1; if( !bad && g1 > 0 ) { mc_say( "%ld blocks of the interpreter are lost by every run", g1 ); bad = 1; } }
	}
	nat = keep[ 0 ]; npy = keep[ 1 ]; nfailed = keep[ 2 ]; }
	if( bad && v[ 1 ] >= 3 )
	{
		char t[ 900 ]; snprintf( t, sizeof t, "%s", mc_text );
		if( v[ 2 ] || v[ 4 ] ) mc_say( "%s [native allocations %#lx, interpreter allocations %ld+%ld failing]", t, v[ 2 ], v[ 3 ], v[ 4 ] );
	}
	else if( bad )
	{
		char t[ 900 ]; int p = snprintf( t, sizeof t, "%s [%s", mc_text, ref_name[ v[ 0 ] ] );
		for( int j = 5; j < n && p < 800; j++ ) p += snprintf( t + p, sizeof t - p, "; %s", opn[ v[ j ] ] );
		if( v[ 2 ] || v[ 4 ] ) p += snprintf( t + p, sizeof t - p, "; native allocations %#lx, interpreter allocations %ld+%ld failing", v[ 2 ], v[ 3 ], v[ 4 ] );
		mc_say( "%s]", t );
	}
	if( nfailed ) mc_nontrivial++;
	return bad;
}
static int dispatch( const long *v, int n ) { return v[ 1 ] == 3 ? call_with( v ) : v[ 1 ] == 4 ? call_sized( v ) : v[ 1 ] == 5 ? history( v ) : run( v, n ); }
static int import_fails( const long *v )
{
	int fd[ 2 ], st; char b[ 300 ]; ssize_t k; pid_t p;
	if( pipe( fd ) ) return 0;
	fflush( stdout );
	p = fork();
	if( p == 0 )
	{
		PyObject *(*init)( void ) = dlsym( mc_dl, "PyInit_pyhmac" ), *m; const char *msg_ = "ok"; int c = 0;
		signal( SIGSEGV, SIG_DFL ); signal( SIGABRT, SIG_DFL );
		nat = npy = nfailed = 0; nmask = v[ 2 ]; pfrom = v[ 3 ]; pcount = v[ 4 ];
		arm(); m = init(); disarm();
		if( m == NULL && !PyErr_Occurred() ) { msg_ = "module initialization fails without an exception"; c = 1; }
		if( m != NULL && PyErr_Occurred() ) { msg_ = "module initialization succeeds with an exception pending"; c = 1; }
		if( m == NULL && nfailed == 0 ) { msg_ = "module initialization fails"; c = 1; }
		if( m != NULL ) for( int i = 0; i < NALG; i++ ) { snprintf( b, sizeof b, "%s_context", ref_name[ i ] ); if( !PyObject_HasAttrString( m, b ) ) { msg_ = "the initialized module lacks a type"; c = 1; } }
		{ long o[ 3 ] = { npy, nfailed, c }; if( write( fd[ 1 ], o, sizeof o ) < 0 || write( fd[ 1 ], msg_, strlen( msg_ ) ) < 0 ) {} }
		_exit( 0 );
	}
	close( fd[ 1 ] );
	long o[ 3 ] = { 0, 0, 0 }; k = read( fd[ 0 ], o, sizeof o ); 
	{ ssize_t q = read( fd[ 0 ], b, sizeof b - 1 ); b[ q > 0 ? q : 0 ] = 0; }
	close( fd[ 0 ] ); waitpid( p, &st, 0 );
	if( !WIFEXITED( st ) || k != sizeof o ) { mc_say( "module initialization crashes, interpreter allocations %ld+%ld failing", v[ 3 ], v[ 4 ] ); return 1; }
	npy = o[ 0 ]; nfailed = o[ 1 ];
	if( nfailed ) mc_nontrivial++;
	if( o[ 2 ] ) { mc_say( "%s, interpreter allocations %ld+%ld failing", b, v[ 3 ], v[ 4 ] ); return 1; }
	return 0;
}
const char *mc_rule( void ) { return ""; }
void mc_init( void )
{
	py_init();
	for( size_t i = 0; i < sizeof msg; i++ ) msg[ i ] = mc_pat( 4, i % 90 );
	data_ = mbytes( msg, 90, 0 ); key_ = mbytes( key, 150, 0 );
	for( int a = 0; a < NALG; a++ )
	{
		ref_digest( a, msg, 90, d_calc[ a ] ); ref_hmac( a, key, 150, msg, 90, d_hmac[ a ] );
		for( int i = 0; i < 16; i++ ) ref_digest( a, msg, 90 * i, d_upd[ a ][ i ] );
		if( a == 0 )
		{
			for( int i = 0; i < ODD; i++ ) { marg[ i ] = odd[ i ]; marg_name[ i ] = odd_name[ i ]; }
			marg[ ODD ] = PyLong_FromString( "123456789012345678901234567890", NULL, 10 ); marg_name[ ODD ] = "large int";
			marg[ ODD + 1 ] = PyDict_New(); marg_name[ ODD + 1 ] = "dict";
			marg[ ODD + 2 ] = mbytes( msg, 90, 0 ); marg_name[ ODD + 2 ] = "bytes";
			marg[ ODD + 3 ] = mbytes( msg, 30, 1 ); marg_name[ ODD + 3 ] = "subclass of bytes";
			marg[ ODD + 4 ] = PyUnicode_FromString( "a longer text that is mortal" ); marg_name[ ODD + 4 ] = "long str";
		}
		for( int f = 0; f < FUNS; f++ ) for( int q = 0; q < ARGS; q++ ) for( int m = 0; m < FORMS; m++ ) { long v[] = { a, 3, 0, 0, 0, f, q, m }; call_with( v ); }
		/* caches of the interpreter */
		for( int op = 0; op < NOPS; op++ ) { long v[] = { a, 0, 0, 0, 0, NEWI, op, UPD, FIN, DEL }; for( int i = 0; i < 3; i++ ) run( v, 10 ); }
	}
}
static int one( long *v, int n )
{
	int r;
	mc_cur( v, n ); mc_text[ 0 ] = 0; mc_evals++;
	if( ( mc_evals & ( mc_evals - 1 ) ) == 0 ) mc_sample( v, n );
	r = mc_eval( v, n );
	if( r == 0 && mc_alloc_complaint ) { mc_say( "%s", mc_alloc_complaint ); r = 1; }
	mc_alloc_complaint = NULL;
	if( r ) mc_report( v, n );
	return r;
}
static void faults( long *v, int n, int level )
{
	long a, b, i, j;
	v[ 2 ] = v[ 3 ] = v[ 4 ] = 0;
	if( one( v, n ) ) return;
	if( level == 0 ) return;
	a = nat; b = npy;
	for( i = 0; i < a && i < 60; i++ )
	{
		v[ 2 ] = 1L << i; if( one( v, n ) ) continue;
		if( level > 1 ) { long c = nat; for( j = i + 1; j < c && j < 60; j++ ) { v[ 2 ] = 1L << i | 1L << j; one( v, n ); } }
	}
	if( level == 3 ) return;
	v[ 2 ] = 0;
	for( i = 0; i < b; i++ )
	{
		v[ 3 ] = i; v[ 4 ] = 1; one( v, n );
		if( level > 1 ) { v[ 4 ] = 2; one( v, n ); }
		v[ 4 ] = 1000000; one( v, n );
	}
	if( level > 1 )
		for( i = 0; i < a && i < 60; i++ ) for( j = 0; j < b; j++ ) { v[ 2 ] = 1L << i; v[ 3 ] = j; v[ 4 ] = 1; one( v, n ); }
	v[ 2 ] = v[ 3 ] = v[ 4 ] = 0;
}
static long depth; static int level;
static void walk( long *v, int n )
{
	if( n - 5 == depth ) { faults( v, n, level ); return; }
	for( int op = 0; op < NOPS; op++ )
	{
		if( n > 5 && op == CNEW && depth > 3 ) continue;
		v[ n ] = op;
		if( n == 6 && !mc_mine() ) continue;
		walk( v, n + 1 );
	}
}
void mc_enumerate( void )
{
	long v[ 20 ] = { 0 };
	if( mc_mine() )
	{
		long w[] = { 0, 2, 0, 0, 0 }, n;
		if( one( w, 5 ) == 0 ) { n = npy; for( long k = 0; k < n; k++ ) { w[ 3 ] = k; w[ 4 ] = 1; one( w, 5 ); w[ 4 ] = 1000000; one( w, 5 ); } }
	}
	for( v[ 0 ] = 0; v[ 0 ] < NALG; v[ 0 ]++ )
	{
		int T = mc_thorough;
		v[ 1 ] = 3;
		for( long f = 0; f < FUNS; f++ ) for( long q = 0; q < ARGS; q++ ) for( long m = 0; m < FORMS; m++ )
			if( mc_mine() ) { v[ 5 ] = f; v[ 6 ] = q; v[ 7 ] = m; faults( v, 8, T ? 2 : 1 ); }
		v[ 1 ] = 4;
		{
			static const long S[] = { 0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 1048575, 1048576, 1048577 };
			for( long w = 0; w < 5; w++ ) for( unsigned i = 0; i < sizeof S / sizeof *S; i++ ) if( mc_mine() ) { v[ 5 ] = w; v[ 6 ] = S[ i ]; faults( v, 7, T || S[ i ] < 70000 ? 2 : 1 ); }
		}
		v[ 1 ] = 5; v[ 2 ] = v[ 3 ] = v[ 4 ] = 0;
		{
			static const long H[] = { 100, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 2999 };
			for( long k = 0; k < 9; k++ ) { for( unsigned i = 0; i < sizeof H / sizeof *H; i++ ) if( mc_mine() ) { v[ 5 ] = k; v[ 6 ] = H[ i ]; one( v, 7 ); } if( k != 6 && mc_mine() ) { v[ 5 ] = k; v[ 6 ] = 66000; one( v, 7 ); } }
		}
		v[ 1 ] = 0;
		if( strstr( mc_tag, "san" ) ) { depth = 2; level = 2; walk( v, 5 ); depth = T ? 4 : 3; level = 1; walk( v, 5 ); continue; }
		depth = 2; level = 2; walk( v, 5 );
		depth = 3; level = T ? 2 : 1; walk( v, 5 );
		depth = 4; level = T ? 1 : 3; walk( v, 5 );
		depth = 5; level = T ? 3 : 0; walk( v, 5 );
		if( T ) { depth = 6; level = 0; walk( v, 5 ); }
	}
}
