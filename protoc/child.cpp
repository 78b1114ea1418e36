// Runs inside a simulated process: traps every system call of spb-protoc and forwards it to the simulator.
#include "child.hpp"
#include "engine.hpp"
#include "heap.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <linux/stat.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
int spb_protoc_main(int argc, char *argv[]);

namespace sim
{
static volatile unsigned char g_sel = 0; // 0 allow, 1 block
static ChildCfg C;
bool g_in_child = false;

extern "C" void sud_restorer();
__asm__(".section .text.sudrestorer,\"ax\",@progbits\n.globl sud_restorer\nsud_restorer:\n mov $15,%eax\n syscall\n .space 64\n.previous\n");

static long raw(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8")   = e;
    register long r9 __asm__("r9")   = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void rendezvous()
{
    char b = 1;
    while (raw(SYS_write, C.sock, long(&b), 1) != 1)
        ;
    long n;
    while ((n = raw(SYS_read, C.sock, long(&b), 1)) == -EINTR)
        ;
    if (n != 1) raw(SYS_exit_group, 98);
}
static long cpath(char *dst, long p)
{
    if (!p) return -EFAULT;
    auto *s = (const char *)p;
    for (size_t i = 0; i < 8191; i++)
    {
        dst[i] = s[i];
        if (!s[i]) return 0;
    }
    dst[8191] = 0;
    return 0;
}
static long forward()
{
    C.ch->type   = Chan::CALL;
    C.ch->steps  = g_steps;
    C.ch->allocs = heap::st.n;
    C.ch->alloc_failed = heap::st.failed;
    rendezvous();
    return C.ch->ret;
}
static void send_exit(int status)
{
    C.ch->type        = Chan::EXIT;
    C.ch->exit_status = status;
    C.ch->steps       = g_steps;
    C.ch->allocs      = heap::st.n;
    C.ch->alloc_failed = heap::st.failed;
    char b = 1;
    raw(SYS_write, C.sock, long(&b), 1);
    raw(SYS_exit_group, 0);
}
static long service(int nr, const long *a)
{
    Chan &ch = *C.ch;
    switch (nr)
    {
    // ---- memory, signals, scheduling: the real kernel
    case SYS_munmap: case SYS_mprotect: case SYS_mremap: case SYS_brk: case SYS_madvise:
    case SYS_rt_sigaction: case SYS_rt_sigprocmask: case SYS_sigaltstack: case SYS_futex: case SYS_sched_yield:
    case SYS_tgkill: case SYS_gettid: case SYS_arch_prctl: case SYS_prctl: case SYS_set_robust_list: case SYS_rseq:
    case SYS_getrlimit: case SYS_prlimit64: case SYS_sched_getaffinity: case SYS_mincore: case SYS_kill: case SYS_rt_sigreturn:
    case SYS_get_robust_list: case SYS_membarrier:
        return raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    case SYS_mmap:
        if (int(a[4]) < 0 || (a[3] & MAP_ANONYMOUS)) return raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
        return -ENODEV; // file mappings are not offered by this file system
    case SYS_getpid: return 1000 + long(C.noise % 30000);
    case SYS_exit:
    case SYS_exit_group: send_exit(int(a[0]));
    }
    memset(&ch, 0, offsetof(Chan, data));
    ch.nr = nr;
    for (int i = 0; i < 6; i++) ch.a[i] = a[i];
    auto fetch = [&](long p, size_t n)
    {
        if (n > Chan::CAP) n = Chan::CAP;
        if (p && n) memcpy(ch.data, (void *)p, n);
        ch.dlen = uint32_t(n);
    };
    auto store = [&](long p, size_t cap)
    {
        size_t n = ch.dlen < cap ? ch.dlen : cap;
        if (n) memcpy((void *)p, ch.data, n);
    };
    long r;
    switch (nr)
    {
    case SYS_open: case SYS_creat: case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_access: case SYS_chmod: case SYS_truncate: case SYS_chdir:
        if ((r = cpath(ch.path1, a[0]))) return r;
        return forward();
    case SYS_openat: case SYS_mkdirat: case SYS_unlinkat: case SYS_faccessat: case SYS_faccessat2: case SYS_fchmodat:
        if ((r = cpath(ch.path1, a[1]))) return r;
        return forward();
    case SYS_utimensat:
        if (a[1] && (r = cpath(ch.path1, a[1]))) return r;
        return forward();
    case SYS_rename: case SYS_link:
        if ((r = cpath(ch.path1, a[0])) || (r = cpath(ch.path2, a[1]))) return r;
        return forward();
    case SYS_renameat: case SYS_renameat2: case SYS_linkat:
        if ((r = cpath(ch.path1, a[1])) || (r = cpath(ch.path2, a[3]))) return r;
        return forward();
    case SYS_stat: case SYS_lstat:
        if ((r = cpath(ch.path1, a[0]))) return r;
        if ((r = forward()) == 0) store(a[1], sizeof(struct stat));
        return r;
    case SYS_fstat:
        if ((r = forward()) == 0) store(a[1], sizeof(struct stat));
        return r;
    case SYS_newfstatat:
        if ((r = cpath(ch.path1, a[1]))) return r;
        if ((r = forward()) == 0) store(a[2], sizeof(struct stat));
        return r;
    case SYS_statx:
        if ((r = cpath(ch.path1, a[1]))) return r;
        if ((r = forward()) == 0) store(a[4], sizeof(struct statx));
        return r;
    case SYS_readlink:
        if ((r = cpath(ch.path1, a[0]))) return r;
        if ((r = forward()) > 0) store(a[1], size_t(a[2]));
        return r;
    case SYS_readlinkat:
        if ((r = cpath(ch.path1, a[1]))) return r;
        if ((r = forward()) > 0) store(a[2], size_t(a[3]));
        return r;
    case SYS_read: case SYS_pread64: case SYS_getdents64:
        if ((r = forward()) > 0) store(a[1], size_t(a[2]));
        return r;
    case SYS_write: case SYS_pwrite64:
        fetch(a[1], size_t(a[2]));
        return forward();
    case SYS_readv:
    {
        auto *v    = (const iovec *)a[1];
        size_t sum = 0;
        for (long i = 0; i < a[2]; i++) sum += v[i].iov_len;
        ch.a[2] = long(sum);
        ch.nr   = SYS_read;
        if ((r = forward()) > 0)
        {
            size_t at = 0;
            for (long i = 0; i < a[2] && at < size_t(r); i++)
            {
                size_t n = v[i].iov_len < size_t(r) - at ? v[i].iov_len : size_t(r) - at;
                memcpy(v[i].iov_base, ch.data + at, n);
                at += n;
            }
        }
        return r;
    }
    case SYS_writev:
    {
        auto *v    = (const iovec *)a[1];
        size_t sum = 0;
        for (long i = 0; i < a[2]; i++)
        {
            size_t n = v[i].iov_len < Chan::CAP - sum ? v[i].iov_len : Chan::CAP - sum;
            memcpy(ch.data + sum, v[i].iov_base, n);
            sum += n;
        }
        ch.dlen = uint32_t(sum);
        ch.a[2] = long(sum);
        ch.nr   = SYS_write;
        return forward();
    }
    case SYS_getcwd:
        if ((r = forward()) > 0) store(a[0], size_t(a[1]));
        return r;
    case SYS_clock_gettime:
    case SYS_gettimeofday:
    case SYS_time:
        if ((r = forward()) >= 0 && nr != SYS_time) store(a[nr == SYS_clock_gettime ? 1 : 0], 16);
        return r;
    case SYS_getrandom:
        if ((r = forward()) > 0) store(a[0], size_t(a[1]));
        return r;
    case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: return 1000;
    case SYS_getppid: return 999;
    default: return forward();
    }
}
static void on_sigsys(int, siginfo_t *si, void *uc_)
{
    auto *uc = (ucontext_t *)uc_;
    g_sel    = 0;
    int saved = heap::in_scope;
    heap::in_scope = 0;
    auto &g        = uc->uc_mcontext.gregs;
    long a[6]      = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
    g[REG_RAX]     = service(si->si_syscall, a);
    heap::in_scope = saved;
    g_sel          = 1;
}
struct ksigaction
{
    void (*handler)(int, siginfo_t *, void *);
    unsigned long flags;
    void (*restorer)();
    unsigned long mask;
};
[[noreturn]] void child_main(const ChildCfg &cfg)
{
    C = cfg;
    // perturb the heap: fill pattern and layout must not influence the result
    {
        Prng p(cfg.noise);
        std::vector<void *> v;
        uint32_t n = cfg.noise ? p.below(400) : 0;
        for (uint32_t i = 0; i < n; i++)
        {
            size_t sz = 1 + p.below(p.below(8) ? 200 : 20000);
            void *q   = malloc(sz);
            if (q) memset(q, int(p.below(256)), sz);
            v.push_back(q);
        }
        for (void *q : v)
            if (p.below(3)) free(q);
    }
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    g_in_child           = true;
    g_steps              = 0;
    g_step_limit         = cfg.step_limit;
    heap::st.mode        = heap::Mode(cfg.alloc_mode);
    heap::st.fail_at     = cfg.alloc_fail;
    heap::st.n           = 0;
    heap::st.failed      = 0;
    heap::st.max_size    = 256u << 20;
    ksigaction ka{on_sigsys, 4 /*SIGINFO*/ | 0x10000000 /*RESTART*/ | 0x04000000 /*RESTORER*/ | 0x40000000 /*NODEFER*/, sud_restorer, 0};
    if (raw(SYS_rt_sigaction, SIGSYS, long(&ka), 0, 8) != 0) raw(SYS_exit_group, 97);
    if (raw(SYS_prctl, PR_SET_SYSCALL_USER_DISPATCH, 1, long(&sud_restorer), 64, long(&g_sel)) != 0) raw(SYS_exit_group, 97);
    g_sel          = 1;
    heap::in_scope = 1;
    int rc         = spb_protoc_main(cfg.argc, cfg.argv);
    heap::in_scope = 0;
    exit(rc);
}
void child_step_limit()
{
    g_sel = 0;
    C.ch->step_limit_hit = 1;
    C.ch->steps          = g_steps;
    raw(SYS_exit_group, 96);
}
} // namespace sim
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
    for (uint32_t *p = a; p < b; p++) *p = 1;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *)
{
    if (++sim::g_steps > sim::g_step_limit && sim::g_in_child) sim::child_step_limit();
}
