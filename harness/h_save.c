/* C14: a save that is killed or whose system calls fail. The saving process is traced; at each of its system calls the file is looked at
 * (what is there is what a kill at that point would leave), and in further runs each of them fails, falls short or is the last one. */
#include "h.h"
#include <dirent.h>
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include "sys.h"
#include "neuralnet.h"
#include "activation.h"
#include "ref.h"
enum { MARK = 0x5a5e };
static char path[64]; static unsigned char *oldb; static size_t oldn; static bool old_there; static char lnk[64];
static neuralnet_t *oldnet, *newnet; static char what[600];
static neuralnet_t *rnd_net( int maxL, int maxS )
{
    int L = maxL > 8 && chance( 0.05 ) ? rndi( 30, 120 ) : rndi( 1, maxL ), sz[140]; char *an[140]; if ( L > 30 && maxS > 5 ) maxS = 5;
    for ( int i = 0; i <= L; i++ ) sz[i] = rndi( 1, maxS );
    for ( int i = 0; i < L; i++ ) an[i] = (char*) act_names[ rndi( 0, 8 ) ];
    neuralnet_t *nn = neuralnet_create( L, sz, an ); if ( !nn ) { fprintf( stderr, "cannot create\n" ); exit( 3 ); }
    fill_params( nn ); return nn;
}
static uint64_t net_hash( const neuralnet_t *nn )
{
    uint64_t h = h_hash( &nn->n_layers, 4, 0 );
    for ( int i = 0; i < nn->n_layers; i++ ) { const layer_t *l = nn->layer + i; h = h_hash( l, sizeof *l, h ); h = h_hash( l->weight, (size_t) l->n_input * l->n_output * 4, h ); h = h_hash( l->bias, (size_t) l->n_output * 4, h ); }
    return h;
}
static bool equal( const neuralnet_t *a, const neuralnet_t *b )
{
    if ( a->n_layers != b->n_layers ) return false;
    for ( int i = 0; i < a->n_layers; i++ ) {
        const layer_t *l = a->layer + i, *m = b->layer + i;
        if ( l->n_input != m->n_input || l->n_output != m->n_output || l->activation_func != m->activation_func ) return false;
        if ( memcmp( l->weight, m->weight, 4ul * l->n_input * l->n_output ) || memcmp( l->bias, m->bias, 4ul * l->n_output )) return false;
    }
    return true;
}
static unsigned char *slurp( size_t *n )
{
    int fd = open( path, O_RDONLY ); if ( fd < 0 ) return NULL;
    struct stat st; if ( fstat( fd, &st )) { perror( path ); exit( 3 ); }
    unsigned char *b = malloc( st.st_size + 1 ); *n = 0; ssize_t k; while (( k = read( fd, b + *n, st.st_size + 1 - *n )) > 0 ) *n += k;
    close( fd ); return b;
}
/* 'O' the old file (or still none), 'N' the new model, 'X' something else */
static uint64_t lastsum; static char lastst; static uint64_t n_states;
static char state( void )
{
    size_t n = 0; unsigned char *b = slurp( &n ); n_states++;
    if ( !b ) return old_there ? 'X' : 'O';
    if ( old_there && n == oldn && !memcmp( b, oldb, n )) { free( b ); return 'O'; }
    uint64_t s = h_hash( b, n, n ); free( b );
    if ( lastst && s == lastsum ) return lastst;
    neuralnet_t *m = neuralnet_load( path ); char r = m && equal( m, newnet ) ? 'N' : 'X';
    if ( m ) neuralnet_free( m );
    lastsum = s; lastst = r; return r;
}
static bool is_new( void ) { neuralnet_t *m = access( path, F_OK ) ? NULL : neuralnet_load( path ); bool r = m && equal( m, newnet ); if ( m ) neuralnet_free( m ); return r; }
static int listing( char *other, size_t n, bool remove )      /* the number of other files */
{
    int k = 0; DIR *d = opendir( "." ); struct dirent *e; if ( other ) other[0] = 0;
    while (( e = readdir( d ))) if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) && strcmp( e->d_name, path ) && strcmp( e->d_name, lnk ) && strcmp( e->d_name, "err.txt" )) { if ( other ) snprintf( other, n, "%s", e->d_name ); if ( remove ) unlink( e->d_name ); k++; }
    closedir( d ); return k;
}
static void put_old( void )
{
    listing( NULL, 0, true ); unlink( path ); if ( lnk[0] ) unlink( lnk ); lastst = 0;
    if ( !old_there ) return;
    if ( lnk[0] ) { if ( symlink( lnk, path )) { perror( lnk ); exit( 3 ); } }
    int fd = open( lnk[0] ? lnk : path, O_WRONLY | O_CREAT | O_TRUNC, 0644 ); if ( fd < 0 || write( fd, oldb, oldn ) != (ssize_t) oldn ) { perror( path ); exit( 3 ); } close( fd );
}
enum { F_NONE, F_ERROR, F_SHORT, F_SHORTFULL, F_FULL, F_DEAD, F_DONE_ERROR, F_KILL, F_KILL_AFTER, F_KILL_MID };
static const char *fname[] = { "none", "fails", "falls short", "falls short, all other writes fail", "and all later writes fail", "and all later calls fail", "is done and fails", "is not done, killed", "is done, killed", "is half done, killed" };
static struct { long said; int changed, saved, again; } *sh;
static uint64_t nethash;
static void child( void )
{
    int fd = H_ASAN ? open( "err.txt", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600 ) : memfd_create( "msg", 0 ); 
    dup2( fd, 1 ); dup2( fd, 2 ); if ( fd > 2 ) close( fd );
    if ( ptrace( PTRACE_TRACEME, 0, 0, 0 )) _exit( 3 );
    raise( SIGSTOP );
    syscall( SYS_gettid, MARK, 1 );
    neuralnet_save( newnet, "%s", path );
    syscall( SYS_gettid, MARK, 2 );
    fflush( stdout ); fflush( stderr ); sh->said = lseek( 2, 0, SEEK_END ); sh->changed = net_hash( newnet ) != nethash; sh->saved = 1;
    syscall( SYS_gettid, MARK, 3 );
    neuralnet_save( newnet, "%s", path );
    sh->again = 1;
    syscall( SYS_gettid, MARK, 4 );
    _exit( 0 );
}
typedef struct { int n, failable, ended; bool hit; char st; long call; } run_t;
static void dead_child( int st )
{
    static char l[4096];
    if ( H_ASAN ) { FILE *ef = fopen( "err.txt", "r" ); while ( ef && fgets( l, sizeof l, ef )) if ( strstr( l, "ERROR: AddressSanitizer" ) || strstr( l, "runtime error" ) || strstr( l, "    #" )) fputs( l, stderr ); if ( ef ) fclose( ef ); }
    fflush( h_out ); signal( WTERMSIG( st ), SIG_DFL ); raise( WTERMSIG( st )); abort();
}
/* One save, its at-th failable call (kill: file call) struck by fault f. NULL if all is well */
static run_t run( int f, int at, int err )
{
    run_t R = { 0 }; memset( sh, 0, sizeof *sh ); put_old(); fflush( h_out );
    pid_t p = fork(); if ( p < 0 ) { perror( "fork" ); exit( 3 ); }
    if ( !p ) { child(); _exit( 3 ); }
    int st; if ( waitpid( p, &st, 0 ) != p || !WIFSTOPPED( st )) { fprintf( stderr, "cannot trace a child\n" ); exit( 3 ); }
    if ( ptrace( PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL )) { perror( "ptrace" ); exit( 3 ); }
    bool entry = true, active = false, struck = false, failed_already = false; int sig = 0, kcount = 0, total = 0, force = 0; long forced = 0; struct user_regs_struct r; int before = 0; bool killed = false;
    for (;;) {
        if ( ptrace( PTRACE_SYSCALL, p, 0, (void*)(long) sig ) && !killed ) { perror( "ptrace" ); exit( 3 ); }
        sig = 0;
        if ( waitpid( p, &st, 0 ) != p ) { perror( "waitpid" ); exit( 3 ); }
        if ( WIFEXITED( st ) || WIFSIGNALED( st )) break;
        if ( !( WIFSTOPPED( st ) && WSTOPSIG( st ) == ( SIGTRAP | 0x80 ))) { sig = WSTOPSIG( st ); if ( sig == SIGTRAP ) sig = 0; continue; }
        ptrace( PTRACE_GETREGS, p, 0, &r );
        if ( entry ) {
            entry = false; force = 0;
            if ( r.orig_rax == SYS_gettid && r.rdi == MARK ) {
                active = r.rsi == 1; 
                if ( r.rsi == 2 ) { R.st = state(); }
                if ( r.rsi == 3 ) { before = listing( NULL, 0, false ); }
                continue;
            }
            if ( !active ) continue;
            if ( ++total > 200000 ) { viol( "hang", "%s: the save goes on and on after call %d (%s) %s", what, at, sysname( R.call ), fname[f] ); kill( p, SIGKILL ); waitpid( p, &st, 0 ); R.ended = 1; return R; }
            if ( is_file_call( &r, p )) { kcount++; R.n++; }
            bool cf = can_fail( &r, p ); if ( cf ) R.failable++;
            bool here = f >= F_KILL ? is_file_call( &r, p ) && kcount == at : cf && R.failable == at;
            if ( here && f ) {
                struck = R.hit = true; R.call = r.orig_rax; curadd( " %s(%lld)", sysname( r.orig_rax ), r.rdi );
                bool w = is_write( r.orig_rax ) && r.orig_rax != SYS_writev && r.rdx > 1;
                if ( f == F_KILL ) { kill( p, SIGKILL ); killed = true; }
                else if ( f == F_KILL_AFTER ) force = 2;
                else if ( f == F_KILL_MID ) { if ( w ) { r.rdx = 1 + rnd() % ( r.rdx - 1 ); ptrace( PTRACE_SETREGS, p, 0, &r ); } force = 2; }
                else if (( f == F_SHORT || f == F_SHORTFULL ) && w ) { r.rdx = 1 + rnd() % ( r.rdx - 1 ); ptrace( PTRACE_SETREGS, p, 0, &r ); }
                else if (( f == F_DONE_ERROR && !w && r.orig_rax != SYS_read && r.orig_rax != SYS_pread64 ) || r.orig_rax == SYS_close ) { force = 1; forced = -err; }      /* a close that fails has closed all the same */
                else { force = 1; forced = -err; r.orig_rax = -1; ptrace( PTRACE_SETREGS, p, 0, &r ); }
                failed_already = true;
            } else if ( struck && failed_already && cf && (( f == F_FULL || f == F_SHORTFULL ) ? is_write( r.orig_rax ) : f == F_DEAD )) {
                if ( r.orig_rax == SYS_close ) { force = 1; forced = -EIO; } else { force = 1; forced = f == F_DEAD ? -EIO : -ENOSPC; r.orig_rax = -1; ptrace( PTRACE_SETREGS, p, 0, &r ); }
            }
        } else {
            entry = true;
            if ( force == 1 ) { r.rax = forced; ptrace( PTRACE_SETREGS, p, 0, &r ); }
            if ( force == 2 ) { kill( p, SIGKILL ); killed = true; }
            if ( active && f == F_NONE && sysname( r.orig_rax )) { char s = state(); stat_add( "points_looked_at", 1 ); if ( s == 'X' ) { viol( "partial", "%s: after call %d of the save, %s, the file is neither the old nor the new model", what, R.n, sysname( r.orig_rax )); kill( p, SIGKILL ); waitpid( p, &st, 0 ); R.ended = 1; return R; } }
        }
    }
    if ( killed ) {
        R.ended = 1; R.st = state(); stat_add( "kills", 1 );
        if ( R.st == 'X' ) { viol( "partial", "%s: killed in call %d of the save (%s %s) the file is neither the old nor the new model", what, at, sysname( R.call ), fname[f] ); return R; }
        neuralnet_save( newnet, "%s", path );
        if ( !is_new()) viol( "later", "%s: after a save that was killed in call %d (%s) another one does not bring the new model", what, at, sysname( R.call ));
        return R;
    }
    if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 3 ) exit( 3 );
    if ( WIFSIGNALED( st )) { cur( "%s: call %d of the save, %s, %s (%s)", what, at, sysname( R.call ), fname[f], strerror( err )); dead_child( st ); }
    if ( !sh->again || WEXITSTATUS( st )) { viol( "process", "%s: the process ended (status %d) when call %d of the save (%s) %s (%s)", what, WEXITSTATUS( st ), at, sysname( R.call ), fname[f], strerror( err )); R.ended = 1; return R; }
    if ( sh->changed ) viol( "network", "%s: the network was changed by the save", what );
    if ( R.st == 'X' ) { viol( "partial", "%s: call %d of the save (%s) %s (%s): the file is neither the old nor the new model", what, at, sysname( R.call ), fname[f], strerror( err )); R.ended = 1; return R; }
    if ( f == F_NONE && R.st != 'N' ) { viol( "success", "%s: a save without any failure does not bring the new model", what ); R.ended = 1; return R; }
    if ( f != F_NONE && R.st == 'O' && !sh->said ) { viol( "silent", "%s: call %d of the save (%s) %s (%s): the model was not saved and nothing was said", what, at, sysname( R.call ), fname[f], strerror( err )); R.ended = 1; return R; }
    if ( !is_new()) viol( "later", "%s: after a save whose call %d (%s) %s another one does not bring the new model", what, at, sysname( R.call ), fname[f] );
    char other[300]; int k = listing( other, sizeof other, false );
    if ( f == F_NONE ? k > 0 : k > before ) { viol( "leftover", "%s: a save without any failure leaves '%s'", what, other ); R.ended = 1; }
    struct stat ss; if ( f == F_NONE && old_there && !stat( path, &ss ) && !S_ISREG( ss.st_mode )) viol( "leftover", "%s: not a regular file", what );
    return R;
}
int main( int argc, char **argv )
{
    h_init( argc, argv ); h_quiet();
    if ( chdir( h_dir )) { perror( h_dir ); return 3; }
    sh = mmap( NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    for ( long c = h_from; c < h_to; c++ ) {
        h_begin( c ); lnk[0] = 0; snprintf( path, sizeof path, chance( 0.3 ) ? "model" : chance( 0.5 ) ? "a-model.npz" : "x.npz.tmp" );
        int style = rndi( 0, 9 ); bool big = chance( 0.15 );
        newnet = rnd_net( chance( 0.1 ) ? 12 : 4, big ? 90 : 12 ); nethash = net_hash( newnet ); oldnet = rnd_net( 4, 12 ); oldb = NULL; old_there = style > 0;
        if ( style >= 1 && style <= 6 ) { unlink( path ); neuralnet_save( oldnet, "%s", path ); oldb = slurp( &oldn ); if ( !oldb ) { viol( "success", "a save without any failure leaves no file" ); break; } unlink( path ); }
        else if ( style == 7 ) { oldn = rndi( 0, 3000 ); oldb = malloc( oldn + 1 ); for ( size_t i = 0; i < oldn; i++ ) oldb[i] = rnd(); }
        else if ( style == 8 ) { oldn = 0; oldb = malloc( 1 ); }
        else if ( style == 9 ) { unlink( path ); neuralnet_save( newnet, "%s", path ); oldb = slurp( &oldn ); if ( !oldb ) { viol( "success", "a save without any failure leaves no file" ); break; } oldn /= 2; }
        snprintf( what, sizeof what, "%d layers %d..%d over %s", newnet->n_layers, newnet->layer[0].n_input, newnet->layer[newnet->n_layers-1].n_output, style == 0 ? "nothing" : style <= 6 ? "an older model" : style == 7 ? "another file" : style == 8 ? "an empty file" : "half a model" );
        cur( "%s, no failure", what );
        run_t R = run( F_NONE, 0, 0 ); h_evals++; cover( nethash );
        if ( !R.ended ) {
            stat_add( "calls_that_may_fail", R.failable ); stat_add( "file_calls", R.n );
            int m = R.failable > 60 ? 30 : R.failable, ended = 0;
            for ( int i = 0; i < m + 20 && !ended; i++ ) {
                int f, at, err = 0; 
                if ( i < m ) { f = chance( 0.55 ) ? F_ERROR : rndi( F_SHORT, F_DONE_ERROR ); at = m < R.failable ? rndi( 1, R.failable ) : i + 1; }
                else { f = rndi( F_KILL, F_KILL_MID ); at = rndi( 1, R.n ); }
                if ( i < 12 && m < R.failable ) at = i < 4 ? i + 1 : R.failable - ( i - 4 );       /* the first and the last ones are always taken */
                cur( "%s: call %d %s", what, at, fname[f] );
                static const int any[] = { EIO, ENOSPC, EACCES, EROFS, EINTR, EMFILE, EPERM, EDQUOT }; err = any[rndi( 0, 7 )];
                run_t q = run( f, at, err ); h_evals++; ended = q.ended && f < F_KILL;
                if ( !q.hit ) stat_add( "not_reached", 1 ); else { char s[48]; snprintf( s, sizeof s, "struck_%s", sysname( q.call )); stat_add( s, 1 ); cover( h_mix( at * 16 + f ) ^ q.call * 1000003 + style * 77 + newnet->n_layers ); }
                if ( q.st == 'O' ) stat_add( "old_kept", 1 ); else if ( q.st == 'N' ) stat_add( "new_there", 1 );
                if ( h_nviol >= 8 ) { h_finish(); return 0; }
            }
            if ( c % 19 == 0 ) sample( "%s: %d file calls, %d of them may fail", what, R.n, R.failable );
        }
        unlink( path ); listing( NULL, 0, true ); neuralnet_free( newnet ); neuralnet_free( oldnet ); free( oldb );
    }
    h_finish(); return 0;
}
