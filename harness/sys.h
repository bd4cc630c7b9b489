/* names of system calls, and which may be made to fail */
#ifndef SYS_H
#define SYS_H
#include <sys/user.h>
#include <sys/syscall.h>
static const char *sysname( long n )
{
    switch ( n ) { case SYS_write: return "write"; case SYS_pwrite64: return "pwrite64"; case SYS_writev: return "writev"; case SYS_open: return "open"; case SYS_openat: return "openat"; case SYS_creat: return "creat";
        case SYS_rename: return "rename"; case SYS_renameat: return "renameat"; case SYS_renameat2: return "renameat2"; case SYS_link: return "link"; case SYS_linkat: return "linkat"; case SYS_close: return "close"; case SYS_fsync: return "fsync"; case SYS_fdatasync: return "fdatasync";
        case SYS_ftruncate: return "ftruncate"; case SYS_truncate: return "truncate"; case SYS_chmod: return "chmod"; case SYS_fchmod: return "fchmod"; case SYS_fallocate: return "fallocate"; case SYS_unlink: return "unlink"; case SYS_unlinkat: return "unlinkat"; case SYS_read: return "read"; case SYS_pread64: return "pread64";
        case SYS_mmap: return "mmap"; case SYS_copy_file_range: return "copy_file_range"; case SYS_sendfile: return "sendfile"; case SYS_lseek: return "lseek"; case SYS_fstat: return "fstat"; case SYS_newfstatat: return "newfstatat"; case SYS_stat: return "stat"; case SYS_fcntl: return "fcntl"; default: return NULL; }
}
static bool is_write( long n ) { return n == SYS_write || n == SYS_pwrite64 || n == SYS_writev || n == SYS_copy_file_range || n == SYS_sendfile; }
/* a descriptor messages go to? (perror() makes one of its own) */
static bool to_messages( pid_t p, unsigned long long fd )
{
    if ( fd < 3 ) return true;
    char f[64], a[300] = "", b[300] = ""; snprintf( f, sizeof f, "/proc/%d/fd/2", p ); ssize_t k = readlink( f, a, sizeof a - 1 ); snprintf( f, sizeof f, "/proc/%d/fd/%llu", p, fd ); ssize_t m = readlink( f, b, sizeof b - 1 );
    return k > 0 && k == m && !memcmp( a, b, k );
}
/* may it be made to fail? */
static bool can_fail( const struct user_regs_struct *r, pid_t p )
{
    long n = r->orig_rax; if ( n == SYS_lseek || n == SYS_fstat || n == SYS_newfstatat || n == SYS_stat || n == SYS_fcntl || n == SYS_mmap ) return false;
    if ( !sysname( n )) return false;
    if (( is_write( n ) || n == SYS_close || n == SYS_read || n == SYS_fsync ) && to_messages( p, r->rdi )) return false;
    return true;
}
static inline bool is_file_call( const struct user_regs_struct *r, pid_t p ) { return sysname( r->orig_rax ) && !( is_write( r->orig_rax ) && to_messages( p, r->rdi )); }
#endif
