#define _GNU_SOURCE
#include "faultio.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

long fio_raw(long nr, long a, long b, long c, long d, long e, long f);
extern char fio_raw_ip[];
__asm__(".text\n.globl fio_raw\n.type fio_raw,@function\nfio_raw:\n"
        "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\n"
        ".globl fio_raw_ip\nfio_raw_ip:\nret\n.size fio_raw,.-fio_raw\n");

static const int traps[] = { SYS_open, SYS_openat, SYS_creat, SYS_read, SYS_write, SYS_pread64, SYS_pwrite64, SYS_readv, SYS_writev,
    SYS_lseek, SYS_close, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_ftruncate, SYS_truncate, SYS_fsync,
    SYS_fdatasync, SYS_fchmod, SYS_chmod, SYS_fchmodat, SYS_stat, SYS_lstat, SYS_fstat, SYS_newfstatat, SYS_mmap, SYS_dup, SYS_dup2,
    SYS_link, SYS_linkat, SYS_symlink, SYS_mkdir, SYS_copy_file_range, SYS_sendfile, SYS_fallocate, SYS_pread64, SYS_ioctl, SYS_fcntl };
static const char *name_of(long n)
{
    switch (n) {
    case SYS_open: case SYS_openat: case SYS_creat: return "open"; case SYS_read: case SYS_pread64: case SYS_readv: return "read";
    case SYS_write: case SYS_pwrite64: case SYS_writev: return "write"; case SYS_lseek: return "lseek"; case SYS_close: return "close";
    case SYS_rename: case SYS_renameat: case SYS_renameat2: return "rename"; case SYS_unlink: case SYS_unlinkat: return "unlink";
    case SYS_stat: case SYS_lstat: case SYS_fstat: case SYS_newfstatat: return "stat"; case SYS_mmap: return "mmap";
    case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: return "chmod"; case SYS_ftruncate: case SYS_truncate: return "truncate";
    case SYS_fsync: case SYS_fdatasync: return "fsync"; case SYS_fcntl: return "fcntl"; case SYS_ioctl: return "ioctl";
    case SYS_copy_file_range: return "copy_file_range";
    }
    return "file call";
}
static volatile int seek, armed, mode, err, hit, rw; static volatile long at, count; static const char *volatile what = "none";
static int state; /* 0 unknown, 1 available, -1 not */

static bool counted(long nr, long a0, long a4)
{
    switch (nr) {
    case SYS_read: case SYS_write: case SYS_readv: case SYS_writev: case SYS_pread64: case SYS_pwrite64: case SYS_lseek: case SYS_close:
    case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync: case SYS_fchmod: case SYS_fstat: case SYS_dup: case SYS_dup2:
    case SYS_fallocate: case SYS_ioctl: case SYS_fcntl:
        return a0 > 2;
    case SYS_newfstatat: return !(a0 >= 0 && a0 <= 2);
    case SYS_mmap: return (int) a4 > 2;
    }
    return true;
}
static void on_sys(int sig, siginfo_t *si, void *uc_)
{
    ucontext_t *uc = uc_; greg_t *g = uc->uc_mcontext.gregs;
    long nr = si->si_syscall, a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10], e = g[REG_R8], f = g[REG_R9];
    long r; int fire = 0;
    if (armed && counted(nr, a, e)) {
        count++;
        if (count == at || ((mode == FIO_PERSIST || mode == FIO_EOF) && at && count > at)) fire = 1;
    }
    if (fire) {
        hit = 1; what = name_of(nr); if (nr == SYS_fcntl || nr == SYS_lseek) seek = 1;
        bool isw = nr == SYS_write || nr == SYS_pwrite64, isr = nr == SYS_read || nr == SYS_pread64; rw = isw || isr;
        switch (mode) {
        case FIO_ERR: case FIO_PERSIST:
            if (nr == SYS_close) fio_raw(nr, a, b, c, d, e, f);       /* the descriptor is gone even when close reports an error */
            g[REG_RAX] = -err; return;
        case FIO_SHORT:
            if (isr) { g[REG_RAX] = c > 1 ? fio_raw(nr, a, b, c / 2, d, e, f) : -err; return; }
            if (isw) { g[REG_RAX] = c > 1 ? fio_raw(nr, a, b, c / 2, d, e, f) : -err; return; }
            break;
        case FIO_EOF:
            if (isr) { g[REG_RAX] = 0; return; }
            break;
        case FIO_KILL: fio_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0); break;
        case FIO_KILL_TORN: if (isw && c > 1) fio_raw(nr, a, b, c / 2, d, e, f); fio_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0); break;
        case FIO_KILL_AFTER: fio_raw(nr, a, b, c, d, e, f); fio_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0); break;
        }
    }
    g[REG_RAX] = fio_raw(nr, a, b, c, d, e, f);
}
bool fio_available(void)
{
    if (state) return state > 0;
    state = -1;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigemptyset(&sa.sa_mask);
    if (sigaction(SIGSYS, &sa, NULL)) return false;
    enum { N = sizeof traps / sizeof *traps };
    struct sock_filter p[N + 16]; int n = 0;
    uint64_t ip = (uintptr_t) fio_raw_ip;
    p[n++] = (struct sock_filter) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, arch));
    p[n++] = (struct sock_filter) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
    p[n++] = (struct sock_filter) BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    p[n++] = (struct sock_filter) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    p[n++] = (struct sock_filter) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t) ip, 0, 3);
    p[n++] = (struct sock_filter) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
    p[n++] = (struct sock_filter) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t) (ip >> 32), 0, 1);
    p[n++] = (struct sock_filter) BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    p[n++] = (struct sock_filter) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (unsigned i = 0; i < N; i++) p[n++] = (struct sock_filter) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, traps[i], N - i, 0);
    p[n++] = (struct sock_filter) BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    p[n++] = (struct sock_filter) BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog fp = { n, p };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fp, 0, 0)) return false;
    state = 1;
    return true;
}
void fio_arm(long at_, int mode_, int err_){ at = at_; mode = mode_; err = err_; count = 0; hit = 0; seek = 0; rw = 0; what = "none"; armed = 1; }
long fio_disarm(void){ armed = 0; return count; }
int fio_hit(void){ return hit; }
const char *fio_what(void){ return what; }
bool fio_was_rw(void){ return rw; }
int fio_open_fds(void){ int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
bool fio_seek(void){ return seek; }
