/* C29: arrays, archives and networks written and read while system calls fail. The process that writes or reads is traced; in one run for
 * each of its system calls this call fails, falls short, or all later ones fail too. What it then says it did is compared with what was done. */
#include "h.h"
#include <dirent.h>
#include <sys/ptrace.h>
#include "sys.h"
#include "npy_array.h"
#include "npy_array_list.h"
#include "neuralnet.h"
#include "activation.h"
#include "ref.h"
enum { MARK = 0x5a5f };
enum { SAVE, LSAVE, LSAVEC, NOPS_W, LOAD = NOPS_W, MMAP, LLOAD, NLOAD, NOPS };
static const char *opname[] = { "npy_array_save", "npy_array_list_save", "npy_array_list_save_compressed", "npy_array_load", "npy_array_mmap", "npy_array_list_load", "neuralnet_load" };
static int op, comp, level; static char path[64], what[600]; static int na;
static npy_array_t *arr[12]; static char name[12][40]; static neuralnet_t *net; static float **netp;
static unsigned char *oldb; static size_t oldn; static bool old_there;
static npy_array_t *rnd_array( bool big )
{
    static const struct { char t; size_t e; } ty[] = { { 'f', 4 }, { 'f', 8 }, { 'i', 1 }, { 'i', 4 }, { 'u', 2 }, { 'S', 7 }, { 'c', 8 }, { 'b', 1 } };
    npy_array_t *m = calloc( 1, sizeof *m ); int t = rndi( 0, 7 ); m->typechar = ty[t].t; m->elem_size = ty[t].e; m->ndim = rndi( 1, 3 ); m->fortran_order = chance( 0.3 );
    int lim = big ? 30 : 5; if ( chance( 0.3 )) { m->ndim = 1; lim = big ? 60000 : 900; }
    size_t n = m->elem_size; for ( int i = 0; i < m->ndim; i++ ) { m->shape[i] = chance( 0.03 ) ? 0 : rndi( 1, lim ); n *= m->shape[i]; }
    m->data = malloc( n + 1 ); bool rep = chance( 0.5 ); for ( size_t i = 0; i < n; i++ ) m->data[i] = rep ? (char)( i % 7 + 1 ) : (char) rnd();
    return m;
}
static npy_array_t *copy_array( const npy_array_t *m ) { npy_array_t *c = malloc( sizeof *c ); *c = *m; size_t n = npy_array_calculate_datasize( m ); c->data = malloc( n + 1 ); memcpy( c->data, m->data, n ); return c; }
static bool same_array( const npy_array_t *a, const npy_array_t *b )
{
    if ( !b || a->typechar != b->typechar || a->elem_size != b->elem_size || a->ndim != b->ndim || ( a->fortran_order != b->fortran_order )) return false;
    for ( int i = 0; i < a->ndim; i++ ) if ( a->shape[i] != b->shape[i] ) return false;
    return !memcmp( a->data, b->data, npy_array_calculate_datasize( a ));
}
static npy_array_list_t *mk_list( void ) { npy_array_list_t *l = NULL; for ( int i = 0; i < na; i++ ) l = npy_array_list_append( l, copy_array( arr[i] ), "%s", name[i] ); return l; }
/* 'N' all arrays, 'F' some of them in their order, '0' none, 'X' something else */
static char list_is( const npy_array_list_t *l )
{
    if ( !l ) return '0';
    int i = 0, k = 0;
    for ( ; l; l = l->next, i++, k++ ) { while ( i < na && ( !l->filename || strcmp( l->filename, name[i] ))) i++; if ( i >= na || !same_array( arr[i], l->array )) return 'X'; }
    return k == na ? 'N' : 'F';
}
static int nfds( void ) { int k = 0; for ( int i = 0; i < 200; i++ ) if ( fcntl( i, F_GETFD ) >= 0 ) k++; return k; }
static unsigned char *slurp( size_t *n )
{
    int fd = open( path, O_RDONLY ); *n = 0; if ( fd < 0 ) return NULL;
    struct stat st; if ( fstat( fd, &st )) { perror( path ); exit( 3 ); }
    unsigned char *b = malloc( st.st_size + 1 ); ssize_t k; while (( k = read( fd, b + *n, st.st_size + 1 - *n )) > 0 ) *n += k;
    close( fd ); return b;
}
/* what is in the file? 'O' what was there, 'N' the new content, 'X' something else */
static char state( void )
{
    size_t n; unsigned char *b = slurp( &n ); if ( !b ) return old_there ? 'X' : 'O';
    bool o = old_there && n == oldn && !memcmp( b, oldb, n ); free( b ); if ( o ) return 'O';
    char r;
    if ( op == SAVE ) { npy_array_t *m = npy_array_load( path ); r = same_array( arr[0], m ) ? 'N' : 'X'; if ( m ) npy_array_free( m ); }
    else { npy_array_list_t *l = npy_array_list_load( path ); r = list_is( l ) == 'N' ? 'N' : 'X'; if ( l ) npy_array_list_free( l ); }
    return r;
}
static void clear_dir( void )
{
    DIR *d = opendir( "." ); struct dirent *e;
    while (( e = readdir( d ))) if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." )) unlink( e->d_name );
    closedir( d );
}
static void put_old( void )
{
    clear_dir(); if ( !old_there ) return;
    int fd = open( path, O_WRONLY | O_CREAT | O_TRUNC, 0644 ); if ( fd < 0 || write( fd, oldb, oldn ) != (ssize_t) oldn ) { perror( path ); exit( 3 ); } close( fd );
}
static struct { long said; int ret, fds, changed, again; char got, got2; } *sh;
typedef struct { npy_array_t *m; npy_array_list_t *l; neuralnet_t *nn; int ret; } res_t;
static res_t do_op( npy_array_list_t *l )
{
    res_t r = { 0 };
    switch ( op ) {
        case SAVE: npy_array_save( path, arr[0] ); break;
        case LSAVE: r.ret = npy_array_list_save( path, l ); break;
        case LSAVEC: r.ret = npy_array_list_save_compressed( path, l, comp, level ); break;
        case LOAD: r.m = npy_array_load( path ); break;
        case MMAP: r.m = npy_array_mmap( path ); break;
        case LLOAD: r.l = npy_array_list_load( path ); break;
        default: r.nn = neuralnet_load( path ); break;
    }
    return r;
}
static bool same_net( const neuralnet_t *m )
{
    if ( m->n_layers != net->n_layers ) return false;
    for ( int i = 0; i < m->n_layers; i++ ) if ( m->layer[i].n_input != net->layer[i].n_input || m->layer[i].n_output != net->layer[i].n_output || m->layer[i].activation_func != net->layer[i].activation_func ) return false;
    return params_same( m, netp );
}
static char verdict( res_t *r )
{
    char v = '0';
    if ( r->m ) { v = same_array( arr[0], r->m ) ? 'N' : 'X'; npy_array_free( r->m ); }
    if ( r->l ) { v = list_is( r->l ); npy_array_list_free( r->l ); }
    if ( r->nn ) { v = same_net( r->nn ) ? 'N' : 'X'; neuralnet_free( r->nn ); }
    return v;
}
static void child( void )
{
    int fd = H_ASAN ? open( "err.txt", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600 ) : memfd_create( "msg", 0 );
    dup2( fd, 1 ); dup2( fd, 2 ); if ( fd > 2 ) close( fd );
    npy_array_list_t *l = op == LSAVE || op == LSAVEC ? mk_list() : NULL;
    if ( ptrace( PTRACE_TRACEME, 0, 0, 0 )) _exit( 3 );
    raise( SIGSTOP );
    int fds = nfds();
    syscall( SYS_gettid, MARK, 1 );
    res_t r = do_op( l );
    syscall( SYS_gettid, MARK, 2 );
    fflush( stdout ); fflush( stderr ); sh->said = lseek( 2, 0, SEEK_END ); sh->ret = r.ret; sh->got = verdict( &r ); sh->fds = nfds() - fds;
    if ( l && list_is( l ) != 'N' ) sh->changed = 1;
    syscall( SYS_gettid, MARK, 3 );
    r = do_op( l ); sh->got2 = verdict( &r );
    sh->again = 1;
    _exit( 0 );
}
enum { F_NONE, F_ERROR, F_SHORT, F_SHORTFULL, F_FULL, F_DEAD, F_DONE_ERROR };
static const char *fname[] = { "none", "fails", "falls short", "falls short, all later writes fail", "and all later writes fail", "and all later calls fail", "is done and fails" };
typedef struct { int failable, ended; bool hit, fell_short; char st; long call; } run_t;
static bool strikes( const struct user_regs_struct *r, pid_t p )
{
    if ( r->orig_rax == SYS_mmap ) return op == MMAP && (int) r->r8 >= 0;
    return can_fail( r, p );
}
static void dead_child( int st )
{
    static char l[4096];
    if ( H_ASAN ) { FILE *ef = fopen( "err.txt", "r" ); while ( ef && fgets( l, sizeof l, ef )) if ( strstr( l, "ERROR: AddressSanitizer" ) || strstr( l, "runtime error" ) || strstr( l, "    #" )) fputs( l, stderr ); if ( ef ) fclose( ef ); }
    fflush( h_out ); signal( WTERMSIG( st ), SIG_DFL ); raise( WTERMSIG( st )); abort();
}
static run_t run( int f, int at, int err )
{
    run_t R = { 0 }; memset( sh, 0, sizeof *sh ); put_old(); fflush( h_out );
    pid_t p = fork(); if ( p < 0 ) { perror( "fork" ); exit( 3 ); }
    if ( !p ) { child(); _exit( 3 ); }
    int st; if ( waitpid( p, &st, 0 ) != p || !WIFSTOPPED( st )) { fprintf( stderr, "cannot trace a child\n" ); exit( 3 ); }
    if ( ptrace( PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL )) { perror( "ptrace" ); exit( 3 ); }
    bool entry = true, active = false; int sig = 0, force = 0, total = 0; long forced = 0; struct user_regs_struct r;
    for (;;) {
        if ( ptrace( PTRACE_SYSCALL, p, 0, (void*)(long) sig )) { perror( "ptrace" ); exit( 3 ); }
        sig = 0;
        if ( waitpid( p, &st, 0 ) != p ) { perror( "waitpid" ); exit( 3 ); }
        if ( WIFEXITED( st ) || WIFSIGNALED( st )) break;
        if ( !( WIFSTOPPED( st ) && WSTOPSIG( st ) == ( SIGTRAP | 0x80 ))) { sig = WSTOPSIG( st ); if ( sig == SIGTRAP ) sig = 0; continue; }
        ptrace( PTRACE_GETREGS, p, 0, &r );
        if ( entry ) {
            entry = false; force = 0;
            if ( r.orig_rax == SYS_gettid && r.rdi == MARK ) { active = r.rsi == 1; if ( r.rsi == 2 && op < NOPS_W ) R.st = state(); continue; }
            if ( !active ) continue;
            if ( ++total > 200000 ) { viol( "hang", "%s: goes on and on after call %d (%s) %s", what, at, sysname( R.call ), fname[f] ); kill( p, SIGKILL ); waitpid( p, &st, 0 ); R.ended = 1; return R; }
            bool cf = strikes( &r, p ), w = is_write( r.orig_rax ), rd = r.orig_rax == SYS_read || r.orig_rax == SYS_pread64; if ( cf ) R.failable++;
            if ( cf && f && R.failable == at ) {
                R.hit = true; R.call = r.orig_rax; curadd( " %s(%lld)", sysname( r.orig_rax ), r.rdi );
                if (( f == F_SHORT || f == F_SHORTFULL ) && ( w || rd ) && r.orig_rax != SYS_writev && r.rdx > 1 ) { R.fell_short = true; r.rdx = 1 + rnd() % ( r.rdx - 1 ); ptrace( PTRACE_SETREGS, p, 0, &r ); }
                else if ( r.orig_rax == SYS_close || ( f == F_DONE_ERROR && !w && !rd && r.orig_rax != SYS_mmap && r.orig_rax != SYS_open && r.orig_rax != SYS_openat )) { force = 1; forced = -err; }
                else { force = 1; forced = -err; r.orig_rax = -1; ptrace( PTRACE_SETREGS, p, 0, &r ); }
            } else if ( R.hit && cf && (( f == F_FULL || f == F_SHORTFULL ) ? w : f == F_DEAD )) {
                if ( r.orig_rax == SYS_close ) { force = 1; forced = -EIO; } else { force = 1; forced = f == F_DEAD ? -EIO : -ENOSPC; r.orig_rax = -1; ptrace( PTRACE_SETREGS, p, 0, &r ); }
            }
        } else { entry = true; if ( force ) { r.rax = forced; ptrace( PTRACE_SETREGS, p, 0, &r ); } }
    }
    if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 3 ) exit( 3 );
    R.ended = 1;
    char how[200]; if ( f ) snprintf( how, sizeof how, "call %d (%s) %s (%s)", at, sysname( R.call ) ? sysname( R.call ) : "-", fname[f], strerror( err )); else strcpy( how, "no failure" );
    if ( WIFSIGNALED( st )) { cur( "%s: %s", what, how ); dead_child( st ); }
    if ( !sh->again || WEXITSTATUS( st )) { viol( "process", "%s: %s: the process ended (status %d)", what, how, WEXITSTATUS( st )); return R; }
    if ( sh->changed ) { viol( "changed", "%s: %s: the list to be saved was changed", what, how ); return R; }
    if ( sh->fds ) { viol( "descriptor", "%s: %s: %d more files are open than before", what, how, sh->fds ); return R; }
    if ( op < NOPS_W ) {
        bool list = op != SAVE;
        if ( !f && R.st != 'N' ) { viol( "success", "%s: nothing fails, but the file does not hold what was saved", what ); return R; }
        if ( !f && list && sh->ret != na ) { viol( "success", "%s: nothing fails, but %d is returned", what, sh->ret ); return R; }
        if ( !f && sh->said ) { viol( "noise", "%s: nothing fails, but there are messages", what ); return R; }
        if ( R.st != 'N' && !sh->said ) { viol( "silent", "%s: %s: nothing is said, but the file does not hold what was saved", what, how ); return R; }
        if ( list && R.st != 'N' && sh->ret > 0 ) { viol( "reported", "%s: %s: %d arrays are said to be saved, but the file does not hold them", what, how, sh->ret ); return R; }
        if ( list && R.st == 'X' ) { viol( "partial", "%s: %s: the file is neither the old nor the new archive", what, how ); return R; }
        if ( state() != 'N' ) { viol( "later", "%s: %s: saving again does not bring the new content", what, how ); return R; }
        stat_add( R.st == 'N' ? "saved" : "reported_not_saved", 1 );
    } else {
        bool whole = f == F_NONE || ( f == F_SHORT && R.fell_short ) || !R.hit;      /* a read that falls short is not a failure */
        if ( whole && sh->got != 'N' ) { viol( sh->got == 'X' ? "content" : "success", "%s: %s: the content is not loaded (%c)", what, how, sh->got ); return R; }
        if ( whole && sh->said ) { viol( "noise", "%s: %s: there are messages", what, how ); return R; }
        if ( sh->got == 'X' ) { viol( "content", "%s: %s: what is loaded is not what is in the file", what, how ); return R; }
        if ( sh->got != 'N' && !sh->said ) { viol( "silent", "%s: %s: nothing is said, but not all is loaded", what, how ); return R; }
        if ( sh->got2 != 'N' ) { viol( "later", "%s: %s: loading again does not bring the content", what, how ); return R; }
        stat_add( sh->got == 'N' ? "loaded" : sh->got == 'F' ? "loaded_in_part" : "reported_not_loaded", 1 );
    }
    R.ended = 0; return R;
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_quiet();
    if ( chdir( h_dir )) { perror( h_dir ); return 3; }
    sh = mmap( NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c ); op = rndi( 0, NOPS - 1 ); snprintf( path, sizeof path, chance( 0.5 ) ? "a.npz" : "arrays" ); bool big = chance( 0.3 );
        static const int cm[] = { ZIP_CM_STORE, ZIP_CM_DEFLATE, ZIP_CM_BZIP2, ZIP_CM_DEFAULT }; comp = cm[rndi( 0, 3 )]; level = rndi( 0, 9 );
        na = op == LSAVE || op == LSAVEC || op == LLOAD ? ( chance( 0.1 ) ? 12 : rndi( 1, 4 )) : op == NLOAD ? 0 : 1;
        for ( int i = 0; i < na; i++ ) { arr[i] = rnd_array( big ); snprintf( name[i], sizeof name[i], "array %d.npy", i ); }
        net = NULL; oldb = NULL; oldn = 0; clear_dir(); int style = 0;
        if ( op < NOPS_W ) {
            style = rndi( 0, 3 ); old_there = style > 0;
            if ( style == 1 ) { npy_array_t *m = rnd_array( big ); if ( op == SAVE ) npy_array_save( path, m ); else { npy_array_list_t e = { m, "old.npy", NULL }; npy_array_list_save( path, &e ); } oldb = slurp( &oldn ); free( m->data ); free( m ); }
            else if ( style == 2 ) { oldn = rndi( 0, 3000 ); oldb = malloc( oldn + 1 ); for ( size_t i = 0; i < oldn; i++ ) oldb[i] = rnd(); }
            else if ( style == 3 ) { oldn = 0; oldb = malloc( 1 ); }
        } else {
            old_there = true;
            if ( op == NLOAD ) {
                int L = rndi( 1, chance( 0.1 ) ? 12 : 4 ), sz[40]; char *an[40];
                for ( int i = 0; i <= L; i++ ) sz[i] = rndi( 1, big ? 90 : 12 );
                for ( int i = 0; i < L; i++ ) an[i] = (char*) act_names[ rndi( 0, 8 ) ];
                net = neuralnet_create( L, sz, an ); if ( !net ) { fprintf( stderr, "cannot create\n" ); return 3; }
                fill_params( net ); netp = params_snapshot( net ); neuralnet_save( net, "%s", path );
            } else if ( op == LLOAD ) { npy_array_list_t *l = mk_list(); npy_array_list_save_compressed( path, l, comp, level ); npy_array_list_free( l ); }
            else npy_array_save( path, arr[0] );
            oldb = slurp( &oldn ); if ( !oldb ) { viol( "success", "%s: the file to read from is not written", opname[op] ); break; }
        }
        size_t bytes = 0; for ( int i = 0; i < na; i++ ) bytes += npy_array_calculate_datasize( arr[i] );
        snprintf( what, sizeof what, "%s of %d arrays, %zu bytes%s", opname[op], na, bytes, op >= NOPS_W ? "" : style == 0 ? ", over nothing" : style == 1 ? ", over an older file" : style == 2 ? ", over another file" : ", over an empty file" );
        if ( net ) snprintf( what, sizeof what, "neuralnet_load of %d layers %d..%d", net->n_layers, net->layer[0].n_input, net->layer[net->n_layers-1].n_output );
        cur( "%s, no failure", what );
        run_t R = run( F_NONE, 0, 0 ); h_evals++; cover( h_hash( (int[]){ op, na, style, comp, (int) bytes }, 20, 0 ));
        if ( !R.ended ) {
            stat_add( "calls_that_may_fail", R.failable ); stat_add( opname[op], 1 );
            int m = R.failable > 40 ? 24 : R.failable;
            for ( int i = 0; i < 2 * m; i++ ) {
                static const int any[] = { EIO, ENOSPC, EACCES, EROFS, EMFILE, EPERM, EDQUOT };
                int f = chance( 0.5 ) ? F_ERROR : rndi( F_SHORT, F_DONE_ERROR ), at = m < R.failable ? rndi( 1, R.failable ) : i / 2 + 1, err = any[rndi( 0, 6 )];
                if ( i < 12 && m < R.failable ) at = i < 6 ? i + 1 : R.failable - ( i - 6 );
                cur( "%s: call %d %s", what, at, fname[f] );
                run_t q = run( f, at, err ); h_evals++;
                if ( !q.hit ) stat_add( "not_reached", 1 ); else { char s[48]; snprintf( s, sizeof s, "struck_%s", sysname( q.call )); stat_add( s, 1 ); cover( h_mix( at * 16 + f ) ^ q.call * 1000003 + style * 77 + op * 13 ); }
                if ( h_nviol >= 8 ) { h_finish(); return 0; }
                if ( q.ended ) break;
            }
            if ( c % 19 == 0 ) sample( "%s: %d calls may fail", what, R.failable );
        }
        for ( int i = 0; i < na; i++ ) { free( arr[i]->data ); free( arr[i] ); }
        if ( net ) { params_free( netp, net->n_layers ); neuralnet_free( net ); }
        free( oldb ); clear_dir();
    }
    h_finish(); return 0;
}
