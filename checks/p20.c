/* Python threads at every point where a call gives up the interpreter lock.
 * Threads are real; control is passed only at points where the running thread
 * does not hold the lock: right after it gave it up, at the entry and exit of
 * every library function meanwhile, right before it takes it back.
 * v = [ mode, alg A, op A, point A, alg B, op B, point B, alg C, op C ]
 * mode 0: B runs completely at point A; 1: also C at point B of B (nested);
 * 2: B runs up to point B, A completes, B completes; 3: B does op B at point A
 * and op C (its own other object) at point B of A */
#include "py.h"
#include <pthread.h>
#include <semaphore.h>
enum { CREATE, UPD, UPDL, FIN, CALC, CALCL, HMAC, HMACL, DEL, VERSION, REINIT, UPDERR, FINERR, CALCBAD, NOPS };
static const char *opn[] = { "type()", "update(9 bytes)", "update(300 bytes)", "finalize()", "calculate(20 bytes)", "calculate(300 bytes)", "calculate_hmac(short key)", "calculate_hmac(long key)", "delete", "get_version()",
	"__init__()", "update on an uninitialized object", "finalize on an uninitialized object", "calculate(5)" };
enum { NT = 3 };
typedef struct { int alg, op, base; PyObject *o, *d, *k; PyObject *r; int failed; long point; sem_t go; PyThreadState *ts; pthread_t th; Py_ssize_t rc[ 3 ]; const char *bad; char text[ 400 ]; size_t fed; int pending_exc; } thr_t;
static thr_t T[ NT ]; static __thread thr_t *me; static int mode, full; static long pa, pb; static volatile int quit_, b_started, b_done, a_done; static sem_t end_; static int second;
static void pass( int to, thr_t *from ) { sem_post( &T[ to ].go ); sem_wait( &from->go ); }
static void point( void )
{
	thr_t *t = me; long k;
	if( t == NULL ) return;
	k = t->point++;
	if( t == &T[ 0 ] && k == pa ) { b_started = 1; pass( 1, t ); }
	else if( t == &T[ 0 ] && mode == 3 && k == pb ) { second = 1; pass( 1, t ); }
	else if( t == &T[ 1 ] && k == pb && mode == 1 ) pass( 2, t );
	else if( t == &T[ 1 ] && k == pb && mode == 2 && !a_done ) pass( 0, t );
}
static void save_hook( void )
{
	thr_t *t = me;
	if( t ) { t->rc[ 0 ] = t->o ? Py_REFCNT( t->o ) : 0; t->rc[ 1 ] = Py_REFCNT( t->d ); t->rc[ 2 ] = Py_REFCNT( t->k ); }
	point();
}
static void restore_hook( void )
{
	thr_t *t = me;
	point();
	if( t && ( ( t->o && t->rc[ 0 ] != Py_REFCNT( t->o ) ) || t->rc[ 1 ] != Py_REFCNT( t->d ) || t->rc[ 2 ] != Py_REFCNT( t->k ) ) ) t->bad = "the number of references to an object changes while the lock is given up";
}
void __cyg_profile_func_enter( void *f, void *c ) __attribute__(( no_instrument_function ));
void __cyg_profile_func_exit( void *f, void *c ) __attribute__(( no_instrument_function ));
void __cyg_profile_func_enter( void *f, void *c ) { (void) f; (void) c; if( full && lock_given_up && me ) point(); }
void __cyg_profile_func_exit( void *f, void *c ) { (void) f; (void) c; if( full && lock_given_up && me ) point(); }
/* lengths per op */
static size_t len_of( int op ) { return op == UPD ? 9 : op == UPDL || op == CALCL ? 300 : op == CALC ? 20 : 130; }
static void doop( thr_t *t )
{
	PyObject *x[ 2 ];
	t->r = NULL;
	switch( t->op )
	{
		case CREATE: t->o = PyObject_CallNoArgs( type_[ t->alg ] ); t->r = Py_XNewRef( t->o ); break;
		case UPD: case UPDL: case UPDERR: t->r = PyObject_CallMethodOneArg( t->o, s_update, t->d ); break;
		case FIN: case FINERR: t->r = PyObject_CallMethodNoArgs( t->o, s_finalize ); break;
		case CALC: case CALCL: t->r = PyObject_CallOneArg( fcalc[ t->alg ], t->d ); break;
		case HMAC: case HMACL: x[ 0 ] = t->k; x[ 1 ] = t->d; t->r = PyObject_Vectorcall( fhmac[ t->alg ], x, 2, NULL ); break;
		case DEL: { PyObject *o = t->o; t->o = NULL; Py_DECREF( o ); t->r = PyErr_Occurred() ? NULL : Py_NewRef( Py_None ); break; }
		case VERSION: t->r = PyObject_CallNoArgs( fversion ); break;
		case REINIT: t->r = PyObject_CallMethodNoArgs( t->o, s_init ); break;
		case CALCBAD: t->r = PyObject_CallOneArg( fcalc[ t->alg ], odd[ 1 ] ); break;
	}
	t->pending_exc = PyErr_Occurred() != NULL;
	if( t->r != NULL && t->pending_exc ) t->bad = "succeeds with an exception pending";
	if( t->r == NULL && !t->pending_exc ) t->bad = "fails without an exception";
	t->text[ 0 ] = 0;
	if( t->pending_exc )
	{
		PyObject *e = PyErr_GetRaisedException(), *s = PyObject_Str( e ); const char *c = s ? PyUnicode_AsUTF8( s ) : NULL;
		snprintf( t->text, sizeof t->text, "%s: %s", Py_TYPE( e )->tp_name, c ? c : "?" );
		Py_XDECREF( s ); Py_DECREF( e );
	}
	PyErr_Clear();
}
static char alone[ NALG ][ NOPS ][ 400 ];
static int want_raise( int op ) { return op == UPDERR || op == FINERR || op == CALCBAD; }
/* judge the result of a thread's operation; only once it is its turn again */
static int judge( thr_t *t, const char *who )
{
	uint8_t w[ 64 ]; PyObject *r; int bad = 1; size_t n = len_of( t->op );
	if( t->bad ) { mc_say( "%s: %s %s: %s", who, ref_name[ t->alg ], opn[ t->op ], t->bad ); return 1; }
	if( want_raise( t->op ) ) { if( t->r != NULL ) { mc_say( "%s: %s %s does not raise", who, ref_name[ t->alg ], opn[ t->op ] ); return 1; }
		if( alone[ t->alg ][ t->op ][ 0 ] == 0 ) strcpy( alone[ t->alg ][ t->op ], t->text );
		if( strcmp( alone[ t->alg ][ t->op ], t->text ) ) { mc_say( "%s: %s %s raises %s, alone it raises %s", who, ref_name[ t->alg ], opn[ t->op ], t->text, alone[ t->alg ][ t->op ] ); return 1; }
		return 0; }
	if( t->r == NULL ) { mc_say( "%s: %s %s raises", who, ref_name[ t->alg ], opn[ t->op ] ); return 1; }
	switch( t->op )
	{
		case CALC: case CALCL: ref_digest( t->alg, msg + t->base, n, w ); bad = !is_digest( t->r, t->alg, w ); break;
		case HMAC: case HMACL: ref_hmac( t->alg, key + t->base, t->op == HMAC ? 20 : 200, msg + t->base, n, w ); bad = !is_digest( t->r, t->alg, w ); break;
		case FIN: ref_digest( t->alg, msg + t->base, 100, w ); bad = !is_digest( t->r, t->alg, w ); break;
		case VERSION: { const char *s = PyUnicode_Check( t->r ) ? PyUnicode_AsUTF8( t->r ) : NULL, *(*gv)( void ) = dlsym( mc_dl, "libhmac_get_version" ); bad = s == NULL || strcmp( s, gv() ); break; }
		case DEL: bad = 0; break;
		case CREATE: case REINIT: case UPD: case UPDL:
			{
				ref_t c; ref_init( &c, t->alg ); if( t->op == UPD || t->op == UPDL ) { ref_update( &c, msg + t->base, 100 + n ); } ref_update( &c, "tail", 4 ); ref_final( &c, w );
				PyObject *b = PyBytes_FromString( "tail" ); r = PyObject_CallMethodOneArg( t->o, s_update, b ); Py_DECREF( b );
				if( r != NULL ) { Py_DECREF( r ); r = PyObject_CallMethodNoArgs( t->o, s_finalize ); }
				bad = r == NULL || !is_digest( r, t->alg, w ); Py_XDECREF( r ); PyErr_Clear();
				break;
			}
	}
	if( bad ) mc_say( "%s: %s %s: the result is wrong", who, ref_name[ t->alg ], opn[ t->op ] );
	return bad;
}
static void prepare( thr_t *t, int alg, int op, int slot )
{
	PyObject *b, *r;
	t->alg = alg; t->op = op; t->base = slot * 1000; t->point = 0; t->bad = NULL; t->o = NULL; t->r = NULL;
	t->k = mbytes( key + t->base, op == HMACL ? 200 : 20, 0 );
	t->d = mbytes( msg + t->base + ( op == UPD || op == UPDL ? 100 : 0 ), len_of( op ), 0 );
	if( op == UPDERR || op == FINERR ) t->o = PyType_GenericNew( (PyTypeObject *) type_[ alg ], no_args, NULL );
	else if( op == UPD || op == UPDL || op == FIN || op == DEL || op == REINIT )
	{
		t->o = PyObject_CallNoArgs( type_[ alg ] );
		b = mbytes( msg + t->base, 100, 0 ); r = PyObject_CallMethodOneArg( t->o, s_update, b ); Py_XDECREF( r ); Py_DECREF( b );
	}
	PyErr_Clear();
}
static void discard( thr_t *t ) { Py_CLEAR( t->o ); Py_CLEAR( t->d ); Py_CLEAR( t->k ); Py_CLEAR( t->r ); PyErr_Clear(); }
static thr_t extra;  /* the second operation of B in mode 3 */
static void *worker( void *p )
{
	thr_t *t = p; thr_t first;
	for( ;; )
	{
		sem_wait( &t->go );
		if( quit_ ) return NULL;
		PyEval_RestoreThread( t->ts );
		me = t; doop( t ); me = NULL;
		t->ts = PyEval_SaveThread();
		if( mode == 3 && t == &T[ 1 ] )
		{
			sem_post( &T[ 0 ].go ); sem_wait( &t->go );
			PyEval_RestoreThread( t->ts );
			first = *t; (void) first;
			doop( &extra );
			t->ts = PyEval_SaveThread();
			sem_post( &T[ 0 ].go );
			continue;
		}
		if( t == &T[ 1 ] ) { b_done = 1; if( mode == 2 && a_done ) sem_post( &end_ ); else sem_post( &T[ 0 ].go ); }
		else sem_post( &T[ 1 ].go );
	}
}
int mc_eval( const long *v, int n )
{
	int bad = 0; long live, errs; PyThreadState *ts; (void) n;
	mode = v[ 0 ]; pa = v[ 3 ]; pb = v[ 6 ]; b_started = b_done = a_done = second = 0;
	live = mc_live; errs = mc_err_live;
	prepare( &T[ 0 ], v[ 1 ], v[ 2 ], 0 ); prepare( &T[ 1 ], v[ 4 ], v[ 5 ], 1 );
	if( mode == 1 ) prepare( &T[ 2 ], v[ 7 ], v[ 8 ], 2 );
	if( mode == 3 ) prepare( &extra, v[ 7 ], v[ 8 ], 3 );
	me = &T[ 0 ]; doop( &T[ 0 ] ); me = NULL;
	a_done = 1;
	if( b_started && !b_done && mode == 2 )
	{
		/* B stopped at its point: let it complete, without the lock held here */
		ts = PyEval_SaveThread(); sem_post( &T[ 1 ].go ); sem_wait( &end_ ); PyEval_RestoreThread( ts );
	}
	if( mode == 3 && b_started && !second )
	{
		ts = PyEval_SaveThread(); second = 1; sem_post( &T[ 1 ].go ); sem_wait( &T[ 0 ].go ); PyEval_RestoreThread( ts );
	}
	if( py_complaint ) { mc_say( "%s is called while the interpreter lock is given up", py_complaint ); py_complaint = NULL; bad = 1; }
	{
		long p0 = T[ 0 ].point, p1 = T[ 1 ].point;
		if( !bad ) bad = judge( &T[ 0 ], "first thread" );
		if( !bad && b_started ) bad = judge( &T[ 1 ], "second thread" );
		if( !bad && mode == 1 && b_started && p1 > pb ) bad = judge( &T[ 2 ], "third thread" );
		if( !bad && mode == 3 && b_started ) bad = judge( &extra, "second thread, second operation" );
		/* nothing that is left behind may spoil later calls, with the same data or with others */
		if( !bad && b_started )
		{
			static thr_t again;
			for( int i = 0; i < 4 && !bad; i++ )
			{
				prepare( &again, v[ i & 1 ? 4 : 1 ], v[ i & 1 ? 5 : 2 ], i < 2 ? i : 4 + i ); if( i >= 2 && ( again.op == DEL || again.op == VERSION ) ) { again.op = CALC; Py_XSETREF( again.d, mbytes( msg + again.base, len_of( CALC ), 0 ) ); }
				doop( &again ); bad = judge( &again, i & 1 ? "second thread's call repeated later" : "first thread's call repeated later" ); discard( &again );
			}
		}
		discard( &T[ 0 ] ); discard( &T[ 1 ] ); if( mode == 1 ) discard( &T[ 2 ] ); if( mode == 3 ) discard( &extra );
		T[ 0 ].point = p0; T[ 1 ].point = p1;
	}
	if( !bad && mc_live != live ) { mc_say( "%+ld native blocks still allocated", mc_live - live ); bad = 1; }
	if( !bad && mc_err_live != errs ) { mc_say( "%+ld error objects left", mc_err_live - errs ); bad = 1; }
	if( bad )
	{
		char t[ 700 ]; snprintf( t, sizeof t, "%s [A: %s %s, at point %ld B: %s %s", mc_text, ref_name[ v[ 1 ] ], opn[ v[ 2 ] ], v[ 3 ], ref_name[ v[ 4 ] ], opn[ v[ 5 ] ] );
		if( mode == 1 || mode == 3 ) mc_say( "%s, at point %ld %s: %s %s]", t, v[ 6 ], mode == 1 ? "of B C" : "B", ref_name[ v[ 7 ] ], opn[ v[ 8 ] ] );
		else if( mode == 2 ) mc_say( "%s, which stops at its point %ld until A is done]", t, v[ 6 ] );
		else mc_say( "%s]", t );
	}
	if( b_started ) mc_nontrivial++;
	return bad;
}
const char *mc_rule( void ) { return ""; }
void mc_init( void )
{
	PyThreadState *ts;
	py_init();
	for( int i = 0; i < NT; i++ ) { sem_init( &T[ i ].go, 0, 0 ); if( i ) T[ i ].ts = PyThreadState_New( PyInterpreterState_Get() ); }
	sem_init( &end_, 0, 0 );
	on_save = save_hook; on_restore = restore_hook;
	for( int a = 0; a < NALG; a++ ) for( int op = 0; op < NOPS; op++ ) if( want_raise( op ) ) { prepare( &T[ 0 ], a, op, 0 ); doop( &T[ 0 ] ); judge( &T[ 0 ], "alone" ); discard( &T[ 0 ] ); }
	full = strstr( mc_tag, "ins" ) != NULL;
	(void) ts;
	for( int i = 1; i < NT; i++ ) pthread_create( &T[ i ].th, NULL, worker, &T[ i ] );
}
static int one( long *v )
{
	int r;
	mc_cur( v, 9 ); mc_text[ 0 ] = 0; mc_evals++;
	if( ( mc_evals & ( mc_evals - 1 ) ) == 0 ) mc_sample( v, 9 );
	r = mc_eval( v, 9 );
	if( r == 0 && mc_alloc_complaint ) { mc_say( "%s", mc_alloc_complaint ); r = 1; }
	mc_alloc_complaint = NULL;
	if( r ) mc_report( v, 9 );
	return r;
}
static long npoints( int a, int op ) { long v[] = { 0, a, op, -1, a, CALC, -1, 0, 0 }; one( v ); return T[ 0 ].point; }
void mc_enumerate( void )
{
	long P[ NALG ][ NOPS ];
	for( int a = 0; a < NALG; a++ ) for( int op = 0; op < NOPS; op++ ) P[ a ][ op ] = npoints( a, op );
	for( long a = 0; a < NALG; a++ ) for( long oa = 0; oa < NOPS; oa++ ) for( long b = 0; b < NALG; b++ ) for( long ob = 0; ob < NOPS; ob++ )
	{
		if( !mc_mine() ) continue;
		for( long i = 0; i < P[ a ][ oa ]; i++ )
		{
			long v[] = { 0, a, oa, i, b, ob, -1, 0, 0 };
			one( v );
			if( full && !( mc_thorough || a == b ) ) continue;
			for( long j = 0; j < P[ b ][ ob ]; j++ )
			{
				long w[] = { 2, a, oa, i, b, ob, j, 0, 0 };
				one( w );
				if( full && !mc_thorough ) continue;
				if( full && a != b ) continue;
				for( long c = 0; c < NALG; c++ )
				{
					if( !( mc_thorough && !full ) && ( c != a && c != b ) ) continue;
					if( full && c != a ) continue;
					for( long oc = 0; oc < NOPS; oc++ ) { if( full && oc != UPDL && oc != CALC && oc != HMAC && oc != CREATE && oc != FIN ) continue; long x[] = { 1, a, oa, i, b, ob, j, c, oc }; one( x ); }
				}
			}
			if( !full ) for( long j = i + 1; j < P[ a ][ oa ]; j++ ) for( long oc = 0; oc < NOPS; oc++ ) { long x[] = { 3, a, oa, i, b, ob, j, b, oc }; one( x ); }
		}
	}
}
