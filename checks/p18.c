/* The Python module against the standard's values.
 * v = [ 0, alg A, alg B, op ... ]   a sequence of operations on two objects and the module's functions
 *     [ 1, alg, length, form ]      one-shot digest
 *     [ 2, alg, key length, length, form ]
 *     [ 3, alg, function, argument pattern, fed ]  wrong arguments
 *     [ 4, alg, function ]          more than 4 GiB
 *     [ 5 ]                         version
 *     [ 6, alg, a, b, c, form ]     three updates
 *     [ 8, alg, where, size ]       larger arguments
 *     [ 9, alg, mode, count ]       long histories and many objects
 *     [ 7, alg, where, pattern, value, length ]  contents: of a digest, key, data, first, second update */
#include "py.h"
enum { NOPS = 20 };
static const char *opn[ NOPS ] = { "create A", "create B", "A.update(b'')", "A.update(1 byte)", "A.update(60 bytes)", "A.update(data=200 bytes)", "B.update(70 bytes)", "A.finalize()",
	"B.finalize()", "delete A", "A.__init__()", "A.update(None)", "A.update()", "A.finalize(1)", "one-shot digest", "one-shot HMAC", "B.update(subclass of bytes)", "A.update(raising object)", "A = new context", "B.update(x=..)" };
static uint8_t memo[ NALG ][ 2 ][ 1600 ][ 64 ]; static char have[ NALG ][ 2 ][ 1600 ];
static const uint8_t *digest( int a, int slot, size_t n )
{
	if( n >= 1600 ) { static uint8_t o[ 64 ]; ref_digest( a, msg + 3000 * slot, n, o ); return o; }
	if( !have[ a ][ slot ][ n ] ) { ref_digest( a, msg + 3000 * slot, n, memo[ a ][ slot ][ n ] ); have[ a ][ slot ][ n ] = 1; }
	return memo[ a ][ slot ][ n ];
}
static int ok_digest( PyObject *r, const char *what, int a, const uint8_t *want )
{
	if( settle_call( r, what ) ) return 0;
	if( r == NULL ) { PyErr_Clear(); mc_say( "%s %s raises an exception", ref_name[ a ], what ); return 0; }
	if( !is_digest( r, a, want ) )
	{
		if( PyBytes_Check( r ) ) mc_say( "%s %s returns %zd bytes %s, expected %s", ref_name[ a ], what, PyBytes_GET_SIZE( r ), mc_hex( (uint8_t *) PyBytes_AS_STRING( r ), PyBytes_GET_SIZE( r ) ), mc_hex( want, ref_dlen[ a ] ) );
		else mc_say( "%s %s does not return a bytes object but %s", ref_name[ a ], what, Py_TYPE( r )->tp_name );
		return 0;
	}
	return 1;
}
static int ok_none( PyObject *r, const char *what )
{
	if( settle_call( r, what ) ) return 0;
	if( r == NULL ) { PyErr_Clear(); mc_say( "%s raises an exception", what ); return 0; }
	if( r != Py_None ) { mc_say( "%s does not return None", what ); return 0; }
	return 1;
}
static int ok_raise( PyObject *r, const char *what )
{
	if( settle_call( r, what ) ) return 0;
	if( r != NULL ) { mc_say( "%s does not raise an exception", what ); return 0; }
	PyErr_Clear();
	return 1;
}
static int applicable;
static int sequence( const long *v, int n )
{
	PyObject *o[ 2 ] = { NULL, NULL }, *b, *r, *d; size_t fed[ 2 ] = { 0, 0 }; int fin[ 2 ] = { 0, 0 }, alg[ 2 ] = { v[ 1 ], v[ 2 ] }, bad = 0, i, s;
	applicable = 1;
	for( i = 3; i < n && !bad && applicable; i++ )
	{
		int op = v[ i ]; const char *w = opn[ op ];
		s = op == 1 || op == 6 || op == 8 || op == 16 || op == 19;
		b = r = d = NULL;
		if( op != 0 && op != 1 && op != 14 && op != 15 && o[ s ] == NULL ) { applicable = 0; break; }
		if( op <= 1 && o[ s ] != NULL ) { applicable = 0; break; }
		switch( op )
		{
			case 0: case 1: case 18:
				r = PyObject_CallNoArgs( type_[ alg[ s ] ] );
				bad = settle_call( r, w );
				if( !bad && r == NULL ) { PyErr_Clear(); mc_say( "%s: fails", w ); bad = 1; }
				if( o[ s ] ) { Py_DECREF( o[ s ] ); if( !bad && PyErr_Occurred() ) { PyErr_Clear(); mc_say( "%s: releasing the old one leaves an exception", w ); bad = 1; } }
				o[ s ] = r; r = NULL; fed[ s ] = 0; fin[ s ] = 0; break;
			case 2: case 3: case 4: case 5: case 6: case 16:
			{
				size_t k = op == 2 ? 0 : op == 3 ? 1 : op == 4 ? 60 : op == 5 ? 200 : op == 6 ? 70 : 5;
				b = mbytes( msg + 3000 * s + fed[ s ], k, op == 16 );
				if( op == 5 ) { d = kw1( "data", b ); PyObject *m = PyObject_GetAttr( o[ s ], s_update ); r = PyObject_Call( m, no_args, d ); Py_DECREF( m ); Py_DECREF( d ); }
				else r = PyObject_CallMethodOneArg( o[ s ], s_update, b );
				if( fin[ s ] ) { bad = settle_call( r, w ); PyErr_Clear(); }
				else { bad = !ok_none( r, w ); fed[ s ] += k; }
				break;
			}
			case 7: case 8:
				r = PyObject_CallMethodNoArgs( o[ s ], s_finalize );
				if( fin[ s ] ) { bad = settle_call( r, w ); PyErr_Clear(); }
				else bad = !ok_digest( r, w, alg[ s ], digest( alg[ s ], s, fed[ s ] ) );
				fin[ s ] = 1; break;
			case 9: Py_CLEAR( o[ s ] ); if( PyErr_Occurred() ) { PyErr_Clear(); mc_say( "%s leaves an exception", w ); bad = 1; } break;
			case 10: r = PyObject_CallMethodNoArgs( o[ s ], s_init ); bad = !ok_none( r, w ); fed[ s ] = 0; fin[ s ] = 0; break;
			case 11: r = PyObject_CallMethodOneArg( o[ s ], s_update, Py_None ); bad = !ok_raise( r, w ); break;
			case 12: r = PyObject_CallMethodNoArgs( o[ s ], s_update ); bad = !ok_raise( r, w ); break;
			case 13: r = PyObject_CallMethodOneArg( o[ s ], s_finalize, odd[ 1 ] ); bad = !ok_raise( r, w ); break;
			case 14: b = mbytes( msg, 100, 0 ); r = PyObject_CallOneArg( fcalc[ alg[ 0 ] ], b ); bad = !ok_digest( r, w, alg[ 0 ], digest( alg[ 0 ], 0, 100 ) ); break;
			case 15:
			{
				static uint8_t hm[ NALG ][ 64 ]; static char hh[ NALG ]; PyObject *k = mbytes( key, 70, 0 ), *x[ 2 ];
				if( !hh[ alg[ 1 ] ] ) { ref_hmac( alg[ 1 ], key, 70, msg, 130, hm[ alg[ 1 ] ] ); hh[ alg[ 1 ] ] = 1; }
				b = mbytes( msg, 130, 0 ); x[ 0 ] = k; x[ 1 ] = b;
				r = PyObject_Vectorcall( fhmac[ alg[ 1 ] ], x, 2, NULL ); Py_DECREF( k );
				bad = !ok_digest( r, w, alg[ 1 ], hm[ alg[ 1 ] ] ); break;
			}
			case 17: r = PyObject_CallMethodOneArg( o[ s ], s_update, odd[ 11 ] ); bad = !ok_raise( r, w ); break;
			case 19: b = mbytes( msg, 9, 0 ); d = kw1( "x", b ); { PyObject *m = PyObject_GetAttr( o[ s ], s_update ); r = PyObject_Call( m, no_args, d ); Py_DECREF( m ); Py_DECREF( d ); } bad = !ok_raise( r, w ); break;
		}
		Py_XDECREF( b ); Py_XDECREF( r );
	}
	for( s = 0; s < 2; s++ )
		if( o[ s ] )
		{
			if( !bad && applicable && !fin[ s ] ) { r = PyObject_CallMethodNoArgs( o[ s ], s_finalize ); bad = !ok_digest( r, "the digest at the end", alg[ s ], digest( alg[ s ], s, fed[ s ] ) ); Py_XDECREF( r ); }
			Py_DECREF( o[ s ] );
		}
	if( bad )
	{
		char t[ 700 ]; int p = snprintf( t, sizeof t, "%s (after", mc_text );
		for( int j = 3; j < i && p < 600; j++ ) p += snprintf( t + p, sizeof t - p, " %s;", opn[ v[ j ] ] );
		mc_say( "%s)", t );
	}
	return bad;
}
/* wrong arguments: functions 0 calculate, 1 calculate_hmac, 2 update, 3 finalize; pattern: see below */
enum { PATS = ODD * 3 + 12 };
static int wrong( const long *v )
{
	int a = v[ 1 ], f = v[ 2 ], p = v[ 3 ], bad, i; size_t fed = v[ 4 ]; PyObject *o, *m, *g, *b, *t = NULL, *kw = NULL, *r; char w[ 200 ]; uint8_t want[ 64 ];
	o = PyObject_CallNoArgs( type_[ a ] ); b = mbytes( msg, fed, 0 );
	if( o == NULL || b == NULL ) { PyErr_Clear(); mc_say( "%s: set up fails", ref_name[ a ] ); return 1; }
	r = PyObject_CallMethodOneArg( o, s_update, b ); Py_XDECREF( r );
	g = PyBytes_FromString( "good" );
	m = f == 0 ? Py_NewRef( fcalc[ a ] ) : f == 1 ? Py_NewRef( fhmac[ a ] ) : PyObject_GetAttr( o, f == 2 ? s_update : s_finalize );
	if( p < ODD ) { t = f == 1 ? PyTuple_Pack( 2, odd[ p ], g ) : PyTuple_Pack( 1, odd[ p ] ); snprintf( w, sizeof w, "%s (%s%s)", odd_name[ p ], "first", f == 1 ? " of two" : "" ); }
	else if( p < 2 * ODD ) { t = PyTuple_Pack( 2, g, odd[ p - ODD ] ); snprintf( w, sizeof w, "%s as second", odd_name[ p - ODD ] ); }
	else if( p < 3 * ODD ) { i = p - 2 * ODD; t = f == 1 ? PyTuple_Pack( 1, g ) : PyTuple_New( 0 ); kw = kw1( "data", odd[ i ] ); snprintf( w, sizeof w, "data=%s", odd_name[ i ] ); }
	else switch( p - 3 * ODD )
	{
		case 0: if( f == 3 ) { t = PyTuple_Pack( 2, g, g ); } else t = PyTuple_New( 0 ); snprintf( w, sizeof w, "wrong number of arguments" ); break;
		case 1: t = PyTuple_Pack( 3, g, g, g ); snprintf( w, sizeof w, "three arguments" ); break;
		case 2: t = f == 1 ? PyTuple_Pack( 1, g ) : PyTuple_Pack( 2, g, g ); snprintf( w, sizeof w, "wrong number of arguments" ); break;
		case 3: t = PyTuple_New( 0 ); kw = kw1( "x", g ); snprintf( w, sizeof w, "unknown keyword" ); break;
		case 4: t = PyTuple_Pack( 1, g ); kw = kw1( f == 1 ? "key" : "data", g ); snprintf( w, sizeof w, "argument given twice" ); break;
		case 5: t = PyTuple_New( 0 ); kw = f == 1 ? kw2( "key", g, "x", g ) : kw2( "data", g, "key", g ); snprintf( w, sizeof w, "wrong keyword" ); break;
		case 6: t = PyTuple_New( 0 ); kw = kw1( "Data", g ); snprintf( w, sizeof w, "keyword in other case" ); break;
		case 7: if( f == 1 ) { t = PyTuple_New( 0 ); kw = kw1( "data", g ); } else t = PyTuple_Pack( 4, g, g, g, g ); snprintf( w, sizeof w, "missing key or four arguments" ); break;
		case 8: t = PyTuple_Pack( 2, odd[ 0 ], odd[ 0 ] ); snprintf( w, sizeof w, "None, None" ); break;
		case 9: t = PyTuple_Pack( 2, odd[ 10 ], odd[ 11 ] ); snprintf( w, sizeof w, "two raising objects" ); break;
		case 10: t = PyTuple_New( 0 ); kw = kw1( "key", g ); if( f == 1 ) PyDict_SetItemString( kw, "data", odd[ 2 ] ); snprintf( w, sizeof w, "key and wrong data by keyword" ); break;
		case 11: t = PyTuple_New( 0 ); kw = kw2( "key", odd[ 1 ], "data", g ); snprintf( w, sizeof w, "wrong key by keyword" ); break;
	}
	r = PyObject_Call( m, t, kw );
	{ char w2[ 300 ]; snprintf( w2, sizeof w2, "%s %s with %s", ref_name[ a ], f == 0 ? "calculate" : f == 1 ? "calculate_hmac" : f == 2 ? "update" : "finalize", w ); bad = !ok_raise( r, w2 ); }
	Py_XDECREF( r ); Py_XDECREF( t ); Py_XDECREF( kw ); Py_DECREF( m );
	if( !bad )
	{
		r = PyObject_CallMethodOneArg( o, s_update, g ); bad = !ok_none( r, "update after a rejected call" ); Py_XDECREF( r );
		r = PyObject_CallMethodNoArgs( o, s_finalize );
		{ ref_t c; ref_init( &c, a ); ref_update( &c, msg, fed ); ref_update( &c, "good", 4 ); ref_final( &c, want ); }
		if( !bad ) bad = !ok_digest( r, "digest after a rejected call", a, want );
		Py_XDECREF( r );
	}
	PyErr_Clear();
	Py_DECREF( o ); Py_DECREF( b ); Py_DECREF( g );
	mc_nontrivial++;
	return bad;
}
/* more than 4 GiB of zero bytes; the key of the HMAC is short, or the large one */
static const uint64_t LBIG = ( 1ULL << 32 ) + 13;
#include "ref_zero.h"
static int large( const long *v )
{
	int a = v[ 1 ], bad = 0; PyObject *b, *k, *r, *o, *x[ 2 ];
	b = PyBytes_FromStringAndSize( NULL, LBIG );
	if( b == NULL ) { PyErr_Clear(); fprintf( stderr, "no memory for the large message\n" ); _exit( 9 ); }
	/* fresh pages of the allocator: zero */
	if( PyBytes_AS_STRING( b )[ 0 ] || PyBytes_AS_STRING( b )[ LBIG - 1 ] || PyBytes_AS_STRING( b )[ LBIG / 2 ] ) memset( PyBytes_AS_STRING( b ), 0, LBIG );
	mc_nontrivial++;
	switch( v[ 2 ] )
	{
		case 0: r = PyObject_CallOneArg( fcalc[ a ], b ); bad = !ok_digest( r, "calculate over 2^32 bytes", a, lz_digest[ a ] ); Py_XDECREF( r ); break;
		case 1: k = PyBytes_FromString( "key" ); x[ 0 ] = k; x[ 1 ] = b; r = PyObject_Vectorcall( fhmac[ a ], x, 2, NULL ); bad = !ok_digest( r, "calculate_hmac over 2^32 bytes", a, lz_hmac[ a ] ); Py_XDECREF( r ); Py_DECREF( k ); break;
		case 2: k = PyBytes_FromString( "data" ); x[ 0 ] = b; x[ 1 ] = k; r = PyObject_Vectorcall( fhmac[ a ], x, 2, NULL ); bad = !ok_digest( r, "calculate_hmac with a key over 2^32 bytes", a, lz_hkey[ a ] ); Py_XDECREF( r ); Py_DECREF( k ); break;
		case 3:
			o = PyObject_CallNoArgs( type_[ a ] ); r = PyObject_CallMethodOneArg( o, s_update, b ); bad = !ok_none( r, "update over 2^32 bytes" ); Py_XDECREF( r );
			r = PyObject_CallMethodNoArgs( o, s_finalize ); if( !bad ) bad = !ok_digest( r, "digest of an update over 2^32 bytes", a, lz_digest[ a ] ); Py_XDECREF( r ); Py_DECREF( o ); break;
	}
	PyErr_Clear();
	Py_DECREF( b );
	return bad;
}
/* contents */
enum { WHERES = 6, KINDS = 4 };
static const char *wheren[ WHERES ] = { "calculate", "calculate_hmac data", "calculate_hmac key", "first update", "second update", "calculate of a subclass of bytes" };
static int contents( const long *v )
{
	int a = v[ 1 ], w = v[ 2 ], bad = 0; size_t n = v[ 5 ]; uint8_t m[ 700 ], want[ 64 ]; PyObject *b, *r, *o, *x[ 2 ]; char t[ 200 ]; ref_t c;
	if( n > sizeof m - 8 ) n = sizeof m - 8;
	memcpy( m, msg + 11, n );
	if( n ) switch( v[ 3 ] )
	{
		case 0: m[ 0 ] = v[ 4 ]; break;
		case 1: m[ n - 1 ] = v[ 4 ]; break;
		case 2: memset( m, v[ 4 ], n ); break;
		case 3: m[ n / 2 ] = v[ 4 ]; m[ 0 ] = m[ n - 1 ] = v[ 4 ] ^ 0x20; break;
	}
	snprintf( t, sizeof t, "%s, %zu bytes, content %ld with value %ld", wheren[ w ], n, v[ 3 ], v[ 4 ] );
	b = mbytes( m, n, w == 5 );
	switch( w )
	{
		case 0: case 5: r = PyObject_CallOneArg( fcalc[ a ], b ); ref_digest( a, m, n, want ); break;
		case 1: case 2:
			o = mbytes( msg + 77, 33, 0 ); x[ w == 1 ] = b; x[ w == 2 ] = o; r = PyObject_Vectorcall( fhmac[ a ], x, 2, NULL ); Py_DECREF( o );
			if( w == 1 ) ref_hmac( a, msg + 77, 33, m, n, want ); else ref_hmac( a, m, n, msg + 77, 33, want );
			break;
		default:
			o = PyObject_CallNoArgs( type_[ a ] ); if( o == NULL ) { PyErr_Clear(); mc_say( "create fails" ); Py_DECREF( b ); return 1; }
			ref_init( &c, a );
			if( w == 4 ) { PyObject *p = mbytes( msg + 500, 21, 0 ); r = PyObject_CallMethodOneArg( o, s_update, p ); bad = !ok_none( r, "update" ); Py_XDECREF( r ); Py_DECREF( p ); ref_update( &c, msg + 500, 21 ); }
			if( !bad ) { r = PyObject_CallMethodOneArg( o, s_update, b ); bad = !ok_none( r, t ); Py_XDECREF( r ); ref_update( &c, m, n ); }
			r = bad ? NULL : PyObject_CallMethodNoArgs( o, s_finalize ); ref_final( &c, want ); Py_DECREF( o );
	}
	if( !bad ) bad = !ok_digest( r, t, a, want );
	if( !bad && memcmp( PyBytes_AS_STRING( b ), m, n ) ) { mc_say( "%s %s changes its argument", ref_name[ a ], t ); bad = 1; }
	PyErr_Clear(); Py_XDECREF( r ); Py_DECREF( b ); mc_nontrivial++;
	return bad;
}
/* larger arguments */
enum { WIDE = 1 << 24 };
static uint8_t *wide_msg;
static void wide_init( void ) { if( wide_msg == NULL ) { wide_msg = malloc( WIDE + 64 ); for( size_t i = 0; i < WIDE + 64; i++ ) wide_msg[ i ] = mc_pat( 7, i ); } }
static int larger( const long *v )
{
	int a = v[ 1 ], bad = 0; size_t n = v[ 3 ]; PyObject *b, *k, *o, *r = NULL, *x[ 2 ]; uint8_t want[ 64 ]; char t[ 100 ]; static const char *wn[] = { "calculate", "calculate_hmac", "calculate_hmac with a long key", "update", "update after 5 bytes", "two updates", "calculate of a subclass of bytes" };
	wide_init(); snprintf( t, sizeof t, "%s of %zu bytes", wn[ v[ 2 ] ], n );
	b = mbytes( wide_msg, n, v[ 2 ] == 6 ); k = mbytes( msg, 37, 0 );
	switch( v[ 2 ] )
	{
		case 0: case 6: r = PyObject_CallOneArg( fcalc[ a ], b ); ref_digest( a, wide_msg, n, want ); break;
		case 1: x[ 0 ] = k; x[ 1 ] = b; r = PyObject_Vectorcall( fhmac[ a ], x, 2, NULL ); ref_hmac( a, msg, 37, wide_msg, n, want ); break;
		case 2: x[ 0 ] = b; x[ 1 ] = k; r = PyObject_Vectorcall( fhmac[ a ], x, 2, NULL ); ref_hmac( a, wide_msg, n, msg, 37, want ); break;
		default:
		{
			ref_t c; PyObject *f = mbytes( msg, 5, 0 ); ref_init( &c, a );
			o = PyObject_CallNoArgs( type_[ a ] );
			if( v[ 2 ] == 4 ) { r = PyObject_CallMethodOneArg( o, s_update, f ); bad = !ok_none( r, "update" ); Py_XDECREF( r ); ref_update( &c, msg, 5 ); }
			for( int i = 0; i < ( v[ 2 ] == 5 ? 2 : 1 ) && !bad; i++ ) { r = PyObject_CallMethodOneArg( o, s_update, b ); bad = !ok_none( r, t ); Py_XDECREF( r ); ref_update( &c, wide_msg, n ); }
			r = bad ? NULL : PyObject_CallMethodNoArgs( o, s_finalize ); ref_final( &c, want );
			Py_DECREF( o ); Py_DECREF( f );
		}
	}
	if( !bad ) bad = !ok_digest( r, t, a, want );
	if( !bad && memcmp( PyBytes_AS_STRING( b ), wide_msg, n ) ) { mc_say( "%s %s changes its argument", ref_name[ a ], t ); bad = 1; }
	PyErr_Clear(); Py_XDECREF( r ); Py_DECREF( b ); Py_DECREF( k ); mc_nontrivial++;
	return bad;
}
static int longer( const long *v )
{
	int a = v[ 1 ], bad = 0; long c = v[ 3 ], i = 0; PyObject *b, *r, *o = NULL; uint8_t want[ 64 ], w2[ 64 ]; char t[ 120 ];
	snprintf( t, sizeof t, "after %ld repetitions (history %ld): digest", c, v[ 2 ] );
	b = mbytes( msg, 70, 0 ); ref_digest( a, msg, 70, want ); mc_nontrivial++;
	switch( v[ 2 ] )
	{
		case 0: case 1: case 2:     /* many updates: of one byte, of none and one block in turns, rejected ones in between */
		{
			ref_t h; PyObject *p = mbytes( msg + 3, 1, 0 ), *q = mbytes( msg, 0, 0 ), *f = mbytes( msg, ref_block[ a ], 0 ); ref_init( &h, a );
			o = PyObject_CallNoArgs( type_[ a ] );
			for( i = 0; i < c && !bad; i++ )
			{
				if( v[ 2 ] == 2 && ( i & 1 ) ) { r = PyObject_CallMethodOneArg( o, s_update, odd[ i % 10 ] ); bad = !ok_raise( r, "update with a wrong argument" ); continue; }
				{ PyObject *u = v[ 2 ] != 1 ? p : i & 1 ? q : f; r = PyObject_CallMethodOneArg( o, s_update, u ); bad = !ok_none( r, "update" ); Py_XDECREF( r ); ref_update( &h, (uint8_t *) PyBytes_AS_STRING( u ), PyBytes_GET_SIZE( u ) ); }
			}
			ref_final( &h, w2 ); r = bad ? NULL : PyObject_CallMethodNoArgs( o, s_finalize ); if( !bad ) bad = !ok_digest( r, t, a, w2 );
			Py_XDECREF( r ); Py_DECREF( o ); Py_DECREF( p ); Py_DECREF( q ); Py_DECREF( f ); break;
		}
		case 3:     /* whole lives one after another */
			for( i = 0; i < c && !bad; i++ )
			{
				o = PyObject_CallNoArgs( type_[ a ] ); if( o == NULL ) { PyErr_Clear(); mc_say( "%s: object %ld cannot be created", ref_name[ a ], i ); bad = 1; break; }
				r = PyObject_CallMethodOneArg( o, s_update, b ); bad = !ok_none( r, "update" ); Py_XDECREF( r );
				if( i % 3 ) { r = bad ? NULL : PyObject_CallMethodNoArgs( o, s_finalize ); if( !bad ) bad = !ok_digest( r, t, a, want ); Py_XDECREF( r ); }
				Py_DECREF( o );
			}
			break;
		case 4:     /* many objects at a time, of all digests */
		{
			static PyObject *m[ 5000 ]; static int al[ 5000 ];
			if( c > 5000 ) c = 5000;
			for( i = 0; i < c; i++ ) { al[ i ] = ( i % 3 ? a : i ) % NALG; m[ i ] = PyObject_CallNoArgs( type_[ al[ i ] ] ); if( m[ i ] == NULL ) { PyErr_Clear(); mc_say( "object %ld cannot be created", i ); bad = 1; c = i; break; } }
			for( int round = 0; round < 3 && !bad; round++ ) for( i = 0; i < c && !bad; i++ ) { long j = round & 1 ? c - 1 - i : i; PyObject *u = mbytes( msg + 3 * ( j % 500 ) + 61 * round, 61, 0 ); r = PyObject_CallMethodOneArg( m[ j ], s_update, u ); bad = !ok_none( r, "update" ); Py_XDECREF( r ); Py_DECREF( u ); }
			for( i = 0; i < c && !bad; i++ ) { long j = c & 1 ? c - 1 - i : i; ref_digest( al[ j ], msg + 3 * ( j % 500 ), 183, w2 ); r = PyObject_CallMethodNoArgs( m[ j ], s_finalize ); bad = !ok_digest( r, t, al[ j ], w2 ); Py_XDECREF( r ); }
			for( i = 0; i < c; i++ ) Py_CLEAR( m[ i ] );
			break;
		}
		case 5:     /* initialized again and again */
			o = PyObject_CallNoArgs( type_[ a ] );
			for( i = 0; i < c && !bad; i++ ) { if( i % 2 ) { r = PyObject_CallMethodOneArg( o, s_update, b ); bad = !ok_none( r, "update" ); Py_XDECREF( r ); } if( !bad ) { r = PyObject_CallMethodNoArgs( o, s_init ); bad = !ok_none( r, "__init__" ); Py_XDECREF( r ); } }
			if( !bad ) { r = PyObject_CallMethodOneArg( o, s_update, b ); bad = !ok_none( r, "update" ); Py_XDECREF( r ); }
			r = bad ? NULL : PyObject_CallMethodNoArgs( o, s_finalize ); if( !bad ) bad = !ok_digest( r, t, a, want ); Py_XDECREF( r ); Py_DECREF( o ); break;
		case 6:     /* one-shot calls, right and wrong */
		{
			PyObject *x[ 2 ] = { b, b }; uint8_t hm[ 64 ]; ref_hmac( a, msg, 70, msg, 70, hm );
			for( i = 0; i < c && !bad; i++ )
			{
				if( i % 3 == 0 ) { r = PyObject_CallOneArg( fcalc[ a ], b ); bad = !ok_digest( r, t, a, want ); }
				else if( i % 3 == 1 ) { r = PyObject_Vectorcall( fhmac[ a ], x, 2, NULL ); bad = !ok_digest( r, t, a, hm ); }
				else { r = PyObject_CallOneArg( fcalc[ a ], odd[ i % 10 ] ); bad = !ok_raise( r, "calculate with a wrong argument" ); }
				Py_XDECREF( r );
			}
			break;
		}
	}
	PyErr_Clear(); Py_DECREF( b );
	return bad;
}
int mc_eval( const long *v, int n )
{
	int a = n > 1 ? v[ 1 ] : 0, bad = 1; PyObject *b, *k, *r, *d; uint8_t want[ 64 ];
	switch( v[ 0 ] )
	{
		case 0: return sequence( v, n );
		case 1:
			b = mbytes( msg, v[ 2 ], v[ 3 ] == 2 );
			if( v[ 3 ] == 1 ) { d = kw1( "data", b ); r = PyObject_Call( fcalc[ a ], no_args, d ); Py_DECREF( d ); } else r = PyObject_CallOneArg( fcalc[ a ], b );
			ref_digest( a, msg, v[ 2 ], want ); bad = !ok_digest( r, "calculate", a, want );
			if( !bad && memcmp( PyBytes_AS_STRING( b ), msg, v[ 2 ] ) ) { mc_say( "%s calculate changes its argument", ref_name[ a ] ); bad = 1; }
			Py_XDECREF( r ); Py_DECREF( b ); mc_nontrivial++; return bad;
		case 2:
			k = mbytes( key, v[ 2 ], v[ 4 ] == 3 ); b = mbytes( msg, v[ 3 ], v[ 4 ] == 3 );
			switch( v[ 4 ] )
			{
				case 1: d = kw2( "key", k, "data", b ); r = PyObject_Call( fhmac[ a ], no_args, d ); Py_DECREF( d ); break;
				case 2: { PyObject *t = PyTuple_Pack( 1, k ); d = kw1( "data", b ); r = PyObject_Call( fhmac[ a ], t, d ); Py_DECREF( d ); Py_DECREF( t ); break; }
				default: { PyObject *x[] = { k, b }; r = PyObject_Vectorcall( fhmac[ a ], x, 2, NULL ); }
			}
			ref_hmac( a, key, v[ 2 ], msg, v[ 3 ], want ); bad = !ok_digest( r, "calculate_hmac", a, want );
			if( !bad && ( memcmp( PyBytes_AS_STRING( b ), msg, v[ 3 ] ) || memcmp( PyBytes_AS_STRING( k ), key, v[ 2 ] ) ) ) { mc_say( "%s calculate_hmac changes its arguments", ref_name[ a ] ); bad = 1; }
			Py_XDECREF( r ); Py_DECREF( b ); Py_DECREF( k ); mc_nontrivial++; return bad;
		case 3: return wrong( v );
		case 4: return large( v );
		case 7: return contents( v );
		case 8: return larger( v );
		case 9: return longer( v );
		case 5:
		{
			const char *(*gv)( void ) = dlsym( mc_dl, "libhmac_get_version" ), *s;
			r = PyObject_CallNoArgs( fversion ); bad = settle_call( r, "get_version" );
			s = r && PyUnicode_Check( r ) ? PyUnicode_AsUTF8( r ) : NULL;
			if( !bad && ( s == NULL || gv == NULL || strcmp( s, gv() ) ) ) { mc_say( "get_version returns %s", s ? s : "no string" ); bad = 1; }
			PyErr_Clear(); Py_XDECREF( r );
			return bad;
		}
		case 6:
		{
			PyObject *o = PyObject_CallNoArgs( type_[ a ] ); long at = 0; bad = 0;
			if( o == NULL ) { PyErr_Clear(); mc_say( "create fails" ); return 1; }
			for( int i = 0; i < 3 && !bad; i++ ) { b = mbytes( msg + at, v[ 2 + i ], 0 ); r = PyObject_CallMethodOneArg( o, s_update, b ); bad = !ok_none( r, "update" ); Py_XDECREF( r ); Py_DECREF( b ); at += v[ 2 + i ]; }
			r = PyObject_CallMethodNoArgs( o, s_finalize ); if( !bad ) bad = !ok_digest( r, "finalize after three updates", a, digest( a, 0, at ) ); Py_XDECREF( r ); PyErr_Clear();
			Py_DECREF( o ); mc_nontrivial++; return bad;
		}
	}
	return 0;
}
const char *mc_rule( void ) { return ""; }
void mc_init( void ) { mc_hang_s = 120; py_init(); }
static long depth;
static void walk( long *v, int n, unsigned have )
{
	if( n - 3 == depth ) { mc_cur( v, n ); mc_evals++; mc_text[ 0 ] = 0; if( mc_eval( v, n ) ) mc_report( v, n ); else if( ( mc_evals & ( mc_evals - 1 ) ) == 0 ) mc_sample( v, n ); mc_states++; mc_transitions += depth; mc_nontrivial++; return; }
	for( int op = 0; op < NOPS; op++ )
	{
		int s = op == 1 || op == 6 || op == 8 || op == 16 || op == 19;
		if( op <= 1 ) { if( have >> s & 1 ) continue; }
		else if( op != 14 && op != 15 && !( have >> s & 1 ) ) continue;
		v[ n ] = op;
		if( n == 4 && !mc_mine() ) continue;
		walk( v, n + 1, op <= 1 ? have | 1u << s : op == 9 ? have & ~1u : have );
	}
}
void mc_enumerate( void )
{
	long v[ 20 ];
	MC_DO( 5 );
	if( !strchr( mc_tag, '-' ) || strstr( mc_tag, "large" ) ) for( long a = 0; a < NALG; a++ ) for( long f = 0; f < ( mc_thorough ? 4 : 4 ); f++ ) if( strstr( mc_tag, "large" ) ) MC_DO( 4, a, f );
	if( strstr( mc_tag, "large" ) ) return;
	for( long a = 0; a < NALG; a++ )
	{
		long B = ref_block[ a ], M = mc_thorough ? 1100 : 3 * B + 20;
		for( long n = 0; n <= M; n++ ) for( long f = 0; f < 3; f++ ) MC_DO( 1, a, n, f );
		for( long k = 0; k <= 2 * B + 6; k++ ) for( long n = 0; n <= ( mc_thorough ? 2 * B + 6 : 6 ); n++ ) MC_DO( 2, a, k, n, ( k + n ) & 3 );
		long L[] = { 0, 1, 2, B / 2, B - 17, B - 9, B - 8, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 500 };
		{
			long S[] = { 1, 2, 3, 4, 8, 16, 20, 28, 32, 48, 55, 63, 64, 65, 111, 127, 128, 129, 200, 300 };
			for( long w = 0; w < WHERES; w++ )
			{
				for( int i = 0; i < 20; i++ ) for( long k = 0; k < KINDS; k++ ) for( long x = 0; x < 256; x++ ) MC_DO( 7, a, w, k, x, S[ i ] );
				for( long l = 0; l <= ( mc_thorough ? 600 : 3 * B + 2 ); l++ ) for( long x = 0; x < 256; x += mc_thorough ? 1 : 51 ) MC_DO( 7, a, w, 2, x, l );
			}
		}
		for( int i = 0; i < 14; i++ ) for( int j = 0; j < 14; j++ ) for( long f = 0; f < 4; f++ ) MC_DO( 2, a, L[ i ], L[ j ], f );
		for( int i = 0; i < 14; i++ ) for( int j = 0; j < 14; j++ ) for( int k = 0; k < 14; k++ ) MC_DO( 6, a, L[ i ], L[ j ], L[ k ], 0 );
		for( long f = 0; f < 4; f++ ) for( long p = 0; p < PATS; p++ ) for( long fed = 0; fed < 3; fed++ ) MC_DO( 3, a, f, p, fed * 37 );
	}
	for( long a = 0; a < NALG; a++ )
	{
		static const long H[] = { 100, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4100 };
		for( int s = 9; s <= ( mc_thorough ? 24 : 21 ); s++ ) for( long w = 0; w < 7; w++ ) for( int d = -1; d <= 1; d++ ) { if( ( 1L << s ) + d <= WIDE ) MC_DO( 8, a, w, ( 1L << s ) + d ); if( s < 20 && d ) MC_DO( 8, a, w, ( 3L << ( s - 1 ) ) + d ); }
		for( long w = 0; w < 7; w++ ) { MC_DO( 8, a, w, 1000 ); MC_DO( 8, a, w, 10000 ); MC_DO( 8, a, w, 100000 ); MC_DO( 8, a, w, 1000000 ); MC_DO( 8, a, w, WIDE ); }
		for( long k = 0; k < 7; k++ ) { for( unsigned i = 0; i < sizeof H / sizeof *H; i++ ) MC_DO( 9, a, k, H[ i ] ); if( k != 4 ) MC_DO( 9, a, k, 66000 ); }
	}
	for( v[ 1 ] = 0; v[ 1 ] < NALG; v[ 1 ]++ ) for( v[ 2 ] = 0; v[ 2 ] < NALG; v[ 2 ]++ )
	{
		v[ 0 ] = 0;
		depth = v[ 2 ] == ( v[ 1 ] + 2 ) % 5 || v[ 1 ] == v[ 2 ] ? mc_thorough ? 6 : 5 : mc_thorough ? 5 : 4;
		walk( v, 3, 0 );
	}
}
