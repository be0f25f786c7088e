/* Interrupts of the checksum tool.
 * v = [ 0, run, event that fails, how, point, point, ... ]    interrupts at calls to the outside (before: 2i, after: 2i + 1)
 * v = [ 1, run, event that fails, how, instruction, point ]   an interrupt before the given instruction of the tool (and a second at a later call) */
#include "tool.h"
#include <ucontext.h>
#include <sys/wait.h>
const char *mc_rule( void ) { return ""; }
enum { NB = 20, SIGT = SIGINT };
static uint8_t data[ NB ];
static const struct { const char *a[ 7 ]; uint64_t size, avail; int base_ok, mask; } runs[] = {
	{ { "-p", "8", "data" }, NB, NB, 1, 1 }, { { "-d", "sha512,sha256,sha224,sha1,md5", "-p", "8", "data" }, NB, NB, 1, 31 }, { { "none" }, NB, NB, 0, 1 }, { { "-p", "8", "data" }, NB, NB - 5, 0, 1 },
	{ { "-d", "sha1", "-v", "data" }, NB, NB, 1, 3 }, { { "-p", "5", "-d", "sha256", "data" }, NB, NB, 1, 9 }, { { "-p", "7", "-d", "sha512", "data" }, NB, NB, 1, 17 }, { { "-d", "sha224", "data" }, 0, 0, 1, 5 }, { { "-p", "1", "data" }, NB, NB, 1, 1 } };
enum { NRUN = sizeof runs / sizeof runs[ 0 ] };
static char want_n[ 5 ][ 132 ], want_0[ 5 ][ 132 ];
/* allocations on pages of their own; released ones cannot be touched */
enum { PSLOT = 48, SLOTP = 12 };
static uint8_t *pool; static int pused; static struct { size_t n; int live; } pb[ PSLOT ];
static int in_alloc, alloc_clash;
static void point( int when );
static void *pg_malloc( size_t n, int zero )
{
	uint8_t *p; int fail;
	if( T.in_handler && in_alloc ) alloc_clash = 1;
	in_alloc++; point( 0 ); fail = mc_fail && mc_fail( mc_nalloc++, n ); in_alloc--;
	if( fail || pused >= PSLOT || n > ( SLOTP - 2 ) * 4096UL ) { errno = ENOMEM; return NULL; }
	p = pool + (size_t) pused * SLOTP * 4096; mprotect( p, ( SLOTP - 1 ) * 4096, PROT_READ | PROT_WRITE );
	p += ( SLOTP - 1 ) * 4096 - ( ( n + 15 ) & ~15UL ); memset( p, zero ? 0 : 0xa5, n );
	pb[ pused ].n = n; pb[ pused++ ].live = 1; mc_live++;
	return p;
}
static void pg_free( void *q )
{
	size_t i;
	if( q == NULL ) return;
	if( T.in_handler && in_alloc ) alloc_clash = 1;
	in_alloc++; point( 0 ); in_alloc--;
	i = ( (uint8_t *) q - pool ) / ( SLOTP * 4096UL );
	if( (uint8_t *) q < pool || i >= (size_t) pused || !pb[ i ].live || (uint8_t *) q != pool + ( i * SLOTP + SLOTP - 1 ) * 4096 - ( ( pb[ i ].n + 15 ) & ~15UL ) ) { mc_alloc_complaint = "release of memory that is not allocated"; return; }
	pb[ i ].live = 0; mc_live--; mprotect( pool + i * SLOTP * 4096, SLOTP * 4096, PROT_NONE );
	point( 1 );
}
static void pg_reset( void ) { if( pused ) mprotect( pool, (size_t) pused * SLOTP * 4096, PROT_NONE ); pused = 0; in_alloc = alloc_clash = 0; }
/* delivery */
static char *argv_[ 9 ]; static int argc_;
static int evk[ 512 ];
static const long *pts; static int npts, ipt; static long npoint; static int delivered; static long reads_at; static long fev; static int fhow, stepping;
static int active( void ) { hnd_t h = T.handler[ SIGT ]; return T.running && h && h != SIG_IGN && h != SIG_ERR; }
static void deliver( void )
{
	if( T.in_handler ) return;
	if( !delivered ) reads_at = T.reads;
	if( active() ) delivered++;
	tool_interrupt( SIGT );
}
static void step_on( void ) { __asm__ volatile( "pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" : : : "memory", "cc" ); }
static void step_off( void ) { __asm__ volatile( "pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" : : : "memory", "cc" ); }
static void point( int when )
{
	long i = npoint;
	(void) when;
	if( T.in_handler || !T.running ) return;
	npoint++;
	if( ipt < npts && pts[ ipt ] == i ) { ipt++; deliver(); }
	if( stepping == 1 && active() ) { stepping = 2; step_on(); }
}
static void at( int k ) { if( k == EV_ALLOC ) return; point( 0 ); }
static void leave( void ) { point( 1 ); }
static int nsig;   /* giving SIGINT its default action back cannot fail */
static int fl_note( int k, long i ) { if( i < 512 ) evk[ i ] = k; if( k == EV_SIGNAL && nsig++ ) return 0; return i == fev ? fhow : 0; }
/* single steps */
static uintptr_t tlo, thi; static long instr, step_lo, step_step; static long pid_main; static char *shared; static long children; static long cur_[ 8 ];
static long samepc; static uintptr_t lastpc;
static int child, nviol; static long only = -1; static long second = -1;
static void run_child( void );
static uintptr_t skip_lo[ 64 ], skip_hi[ 64 ]; static int nskip; static int skip_on;
static void on_trap( int s, siginfo_t *si, void *u )
{
	ucontext_t *c = u; uintptr_t pc = c->uc_mcontext.gregs[ REG_RIP ];
	(void) s; (void) si;
	if( !T.running || child || stepping != 2 ) { c->uc_mcontext.gregs[ REG_EFL ] &= ~0x100L; return; }
	if( pc < tlo || pc >= thi || T.in_handler ) return;
	if( skip_on ) for( int i = 0; i < nskip; i++ ) if( pc >= skip_lo[ i ] && pc < skip_hi[ i ] ) return;
	if( !active() ) return;
	if( only >= 0 ? instr == only : instr % step_step == step_lo )
	{
		int st; pid_t p;
		cur_[ 4 ] = instr; mc_cur( cur_, 5 );
		p = fork();
		if( p == 0 )
		{
			child = 1; c->uc_mcontext.gregs[ REG_EFL ] &= ~0x100L; stepping = 0;
			signal( SIGSEGV, SIG_DFL ); signal( SIGBUS, SIG_DFL ); signal( SIGABRT, SIG_DFL ); signal( SIGFPE, SIG_DFL ); signal( SIGILL, SIG_DFL ); signal( SIGALRM, SIG_DFL ); signal( SIGPROF, SIG_DFL ); signal( SIGVTALRM, SIG_DFL ); signal( SIGXCPU, SIG_DFL );
			{ struct itimerval z = { { 0, 0 }, { 20, 0 } }; setitimer( ITIMER_REAL, &z, NULL ); }
			ipt = 0; npts = 0; npoint = 0;
			if( second >= 0 ) { npts = 1; pts = &second; }
			deliver();
			return;
		}
		if( p < 0 ) { fprintf( stderr, "fork: %s\n", strerror( errno ) ); _exit( 2 ); }
		while( waitpid( p, &st, 0 ) < 0 ) ;
		children++; mc_evals++; mc_nontrivial++;
		if( WIFSIGNALED( st ) || WEXITSTATUS( st ) == 1 )
		{
			if( WIFSIGNALED( st ) ) sprintf( shared, "an interrupt at instruction %ld: %s", instr, WTERMSIG( st ) == SIGALRM ? "the run does not end" : WTERMSIG( st ) == SIGSEGV || WTERMSIG( st ) == SIGBUS ? "released or foreign memory is touched" : strsignal( WTERMSIG( st ) ) );
			nviol++; mc_say( "hmacsum %s%s%s: %s", tool_argv_text( argc_, argv_ ), fev >= 0 ? " with failing " : "", fev >= 0 && fev < 512 ? ev_name[ evk[ fev ] ] : "", shared );
			{ FILE *so = stdout; long v[ 6 ]; memcpy( v, cur_, sizeof v ); v[ 4 ] = instr; v[ 5 ] = second; stdout = real_stdout; if( nviol <= 3 ) mc_report( v, second >= 0 ? 6 : 5 ); stdout = so; }
		}
		else if( WEXITSTATUS( st ) != 0 ) { fprintf( stderr, "child ended with %d\n", WEXITSTATUS( st ) ); _exit( 2 ); }
	}
	instr++;
}
static int textcb( struct dl_phdr_info *i, size_t s, void *u )
{
	struct link_map *lm = mc_dl; (void) s; (void) u;
	if( i->dlpi_addr != lm->l_addr ) return 0;
	for( int k = 0; k < i->dlpi_phnum; k++ ) if( i->dlpi_phdr[ k ].p_type == PT_LOAD && ( i->dlpi_phdr[ k ].p_flags & PF_X ) ) { tlo = i->dlpi_addr + i->dlpi_phdr[ k ].p_vaddr; thi = tlo + i->dlpi_phdr[ k ].p_memsz; }
	return 1;
}
void mc_init( void )
{
	struct sigaction a; stack_t ss;
	tool_init(); for( int i = 0; i < NB; i++ ) data[ i ] = mc_pat( 4, i );
	tool_digests( data, 0 ); memcpy( want_0, tool_want, sizeof want_0 ); tool_digests( data, NB ); memcpy( want_n, tool_want, sizeof want_n );
	pool = mmap( NULL, PSLOT * SLOTP * 4096UL, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
	shared = mmap( NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
	mc_malloc_hook = pg_malloc; mc_free_hook = pg_free;
	dl_iterate_phdr( textcb, NULL ); if( !tlo ) { fprintf( stderr, "no text\n" ); _exit( 2 ); }
	memset( &a, 0, sizeof a ); a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO; sigaction( SIGTRAP, &a, NULL ); (void) ss;
	/* the digest functions: their instructions do not touch what the handler does; interrupts there are looked at in the runs without failures */
	{ const char *e = getenv( "MC_SKIP" ); while( e && *e && nskip < 64 ) { unsigned long lo, hi; int n; if( sscanf( e, "%lx-%lx%n", &lo, &hi, &n ) != 2 ) break; skip_lo[ nskip ] = ( (struct link_map *) mc_dl )->l_addr + lo; skip_hi[ nskip++ ] = ( (struct link_map *) mc_dl )->l_addr + hi; e += n; if( *e == ',' ) e++; } }
}
/* what came of it */
static int judge( int run, int faulty )
{
	tout_t o; int ok = runs[ run ].base_ok && !faulty; int killed = T.ended == 2;
	memcpy( tool_want, runs[ run ].size ? want_n : want_0, sizeof tool_want );
	tool_parse( &o );
	if( T.bad ) { mc_say( "%s", T.bad ); return 1; }
	if( mc_alloc_complaint ) { mc_say( "%s", mc_alloc_complaint ); return 1; }
	if( alloc_clash ) { mc_say( "the handler allocates or releases memory while the program is doing so: it can block" ); return 1; }
	if( killed && T.status != SIGT ) { mc_say( "the tool ends with signal %d", T.status ); return 1; }
	if( T.fail_kinds & 1 << EV_OUT ) return 0;    /* what could not be written is not judged here */
	for( int k = 0; k < 5; k++ )
	{
		size_t l = strlen( o.hex[ k ] ); int cut = killed && l && o.hex[ k ][ l - 1 ] == '~';     /* ended by the default action while writing */
		if( o.seen[ k ] && ( o.seen[ k ] > 1 || !( runs[ run ].mask >> k & 1 ) || ( cut ? strncmp( o.hex[ k ], tool_want[ k ], l - 1 ) : strcmp( o.hex[ k ], tool_want[ k ] ) ) ) ) { mc_say( "the tool prints %d %s digests, %s instead of %s", o.seen[ k ], dg_label[ k ], o.hex[ k ], tool_want[ k ] ); return 1; }
	}
	if( killed ) return 0;
	if( T.status == 0 )
	{
		const char *w = tool_exact( &o, runs[ run ].mask );
		if( w ) { mc_say( "the tool succeeds, but %s", w ); return 1; }
		if( o.aborted ) { mc_say( "the tool says it was aborted, but succeeds" ); return 1; }
	}
	else if( ok && delivered && !o.aborted ) { mc_say( "the tool fails with %d, but does not say that it was aborted: %.200s", T.status, T.err ); return 1; }
	else if( ok && !delivered ) { mc_say( "the tool fails with %d: %.200s", T.status, T.err ); return 1; }
	if( delivered && T.reads - reads_at > 2 ) { mc_say( "the tool reads %ld more times after the interrupt", T.reads - reads_at ); return 1; }
	return 0;
}
static int go( int run, long ev, int how, const long *p, int np, int step )
{
	argc_ = 1; argv_[ 0 ] = "hmacsum"; for( int i = 0; i < 7 && runs[ run ].a[ i ]; i++ ) argv_[ argc_++ ] = (char *) runs[ run ].a[ i ];
	argv_[ argc_ ] = NULL;
	tool_reset(); T.data = data; T.size = runs[ run ].size; T.avail = runs[ run ].avail; T.exists = "data"; T.stdin_open = 1; T.reads_max = 1000; T.at = at; T.leave = leave;
	fev = ev; fhow = how; T.fail = fl_note; nsig = 0; pts = p; npts = np; ipt = 0; npoint = 0; delivered = 0; reads_at = 0; mc_alloc_complaint = NULL; pg_reset();
	stepping = step; instr = 0;
	tool_run( argc_, argv_ );
	if( stepping == 2 ) { step_off(); } stepping = 0;
	return judge( run, T.failed != 0 );
}
static void describe( int run, long ev, const char *what )
{
	char t[ 512 ]; extern char mc_text[]; snprintf( t, sizeof t, "%s", mc_text );
	mc_say( "hmacsum %s%s%s, %s: %s", tool_argv_text( argc_, argv_ ), ev >= 0 ? " with failing " : "", ev >= 0 && ev < 512 ? ev_name[ evk[ ev ] ] : "", what, t );
}
static int stepped( int run, long ev, int how )
{
	int r = go( run, ev, how, NULL, 0, 1 );
	if( child )
	{
		extern char mc_text[];
		if( r ) { snprintf( shared, 4000, "an interrupt at instruction %ld: %s", instr, mc_text ); }
		_exit( r ? 1 : 0 );
	}
	return r;
}
int mc_eval( const long *v, int n )
{
	int r;
	if( v[ 0 ] == 0 )
	{
		r = go( v[ 1 ], v[ 2 ], v[ 3 ], v + 4, n - 4, 0 );
		if( delivered ) mc_nontrivial++;
		if( r ) describe( v[ 1 ], v[ 2 ], n > 5 ? "interrupts" : n > 4 ? "an interrupt" : "no interrupt" );
		return r;
	}
	memcpy( cur_, v, sizeof( long ) * ( n < 6 ? n : 6 ) ); only = v[ 4 ]; second = n > 5 ? v[ 5 ] : -1; nviol = 0; skip_on = v[ 2 ] >= 0; step_step = 1;
	stepped( v[ 1 ], v[ 2 ], v[ 3 ] ); only = second = -1;
	return nviol ? 1 : 0;
}
/* all interrupts at calls: singles, pairs, triples */
static void calls( int run, long ev, int how, int depth )
{
	long v[ 8 ] = { 0, run, ev, how }, n1, n2, n3;
	mc_do( v, 4 ); go( run, ev, how, NULL, 0, 0 ); n1 = npoint;
	for( long a = 0; a < n1; a++ )
	{
		if( !mc_mine() ) continue;
		v[ 4 ] = a;
		mc_cur( v, 5 ); mc_evals++; if( mc_eval( v, 5 ) ) mc_report( v, 5 );
		if( mc_evals % 997 == 3 ) mc_sample( v, 5 );
		if( depth < 2 || !delivered ) continue;
		n2 = npoint;
		for( long b = a + 1; b < n2; b++ )
		{
			v[ 5 ] = b; mc_cur( v, 6 ); mc_evals++; if( mc_eval( v, 6 ) ) { mc_report( v, 6 ); }
			n3 = npoint;
			if( depth > 2 ) for( long c = b + 1; c < n3; c++ ) { v[ 6 ] = c; mc_cur( v, 7 ); mc_evals++; if( mc_eval( v, 7 ) ) mc_report( v, 7 ); }
		}
	}
}
static void instructions( int run, long ev, int how, long sec )
{
	cur_[ 0 ] = 1; cur_[ 1 ] = run; cur_[ 2 ] = ev; cur_[ 3 ] = how; cur_[ 5 ] = sec;
	only = -1; second = sec; step_lo = mc_shard; step_step = mc_shards; skip_on = ev >= 0;
	if( stepped( run, ev, how ) ) { long v[ 4 ] = { 0, run, ev, how }; describe( run, ev, "no interrupt" ); mc_report( v, 4 ); }
	second = -1;
}
void mc_enumerate( void )
{
	long nev, np; int only_calls = !strncmp( mc_tag, "calls", 5 ) || strstr( mc_tag, "-san" ) != NULL;
	if( only_calls )
	{
		for( int r = 0; r < NRUN; r++ )
		{
			calls( r, -1, 0, 3 );
			go( r, -1, 0, NULL, 0, 0 ); nev = T.nev;
			for( long e = 0; e < nev; e++ )
			{
				go( r, e, 1, NULL, 0, 0 ); if( T.failed == 0 ) continue;
				calls( r, e, 1, mc_thorough ? 3 : 2 );
				if( e < 512 && ( evk[ e ] == EV_OUT || evk[ e ] == EV_SPLITSEG ) ) calls( r, e, 2, 2 );
			}
		}
		return;
	}
	for( int r = 0; r < ( mc_thorough ? NRUN : 4 ); r++ ) instructions( r, -1, 0, -1 );
	/* failing runs */
	for( int r = 0; r < ( mc_thorough ? NRUN : 1 ); r++ )
	{
		go( r, -1, 0, NULL, 0, 0 ); nev = T.nev;
		for( long e = 0; e < nev; e++ ) { go( r, e, 1, NULL, 0, 0 ); if( T.failed ) instructions( r, e, 1, -1 ); }
	}
	/* a second interrupt at a later call */
	if( mc_thorough )
	{
		go( 0, -1, 0, NULL, 0, 0 ); np = npoint;
		for( long b = 0; b < np; b++ ) { instructions( 0, -1, 0, b ); instructions( 3, -1, 0, b ); }
	}
}
