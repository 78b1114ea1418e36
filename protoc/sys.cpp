// The simulated operating system's side of the compiler processes: scheduling, faults and the system calls.
#include "sys.hpp"
#include "child.hpp"
#include "heap.hpp"
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <linux/stat.h>
#include <poll.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
namespace sim
{
static const int HANG_MS = 60000;
const char *sc_name(SysClass c)
{
    static const char *n[] = {"open-for-read", "open-for-write", "read", "write", "close-input", "close-output", "stat", "mkdir", "seek",
                              "sync",          "rename",         "unlink", "truncate", "stdio",      "directory",    "other"};
    return n[c];
}
std::string call_text(const Call &c)
{
    std::string s = strf("p%d #%llu %s", c.proc, (unsigned long long)c.index, sc_name(c.cls));
    if (!c.path.empty()) s += " " + c.path;
    if (!c.path2.empty()) s += " -> " + c.path2;
    if (c.len) s += strf(" len=%zu", c.len);
    s += strf(" = %ld", c.ret);
    static const char *fk[] = {"", " [FAIL]", " [TORN+FAIL]", " [SHORT]", " [KILLED]", " [TORN+KILLED]", " [KILLED AFTER]", " [FAIL, DATA LOST]"};
    return s + fk[c.fault];
}
namespace
{
struct Child
{
    int id = 0;
    pid_t pid = -1;
    int sock = -1;
    Chan *ch = nullptr;
    Proc proc;
    enum
    {
        RUNNING,
        TRAPPED,
        DONE
    } state = RUNNING;
    Call call;
    InstanceResult res;
};
Chan *chan(size_t i)
{
    static std::vector<Chan *> pool;
    static pid_t owner = 0;
    if (owner != getpid()) // a forked worker must not share its parent's channels
    {
        pool.clear();
        owner = getpid();
    }
    while (pool.size() <= i)
    {
        void *p = mmap(nullptr, sizeof(Chan), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) die_violation("harness", "mmap failed");
        pool.push_back((Chan *)p);
    }
    return pool[i];
}
bool xwrite(int fd)
{
    char b = 1;
    return send(fd, &b, 1, MSG_NOSIGNAL) == 1;
}
void spawn(Child &c, const InstanceSpec &s, uint64_t step_limit)
{
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) die_violation("harness", "socketpair failed");
    c.ch = chan(size_t(c.id));
    memset(c.ch, 0, offsetof(Chan, data));
    std::vector<std::string> args;
    args.push_back("spb-protoc");
    for (auto &a : s.args) args.push_back(a);
    std::vector<char *> argv;
    for (auto &a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    fflush(stdout);
    fflush(stderr);
    c.pid = fork();
    if (c.pid < 0) die_violation("harness", "fork failed");
    if (c.pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(sv[0]);
        ChildCfg cfg{};
        cfg.argc       = int(args.size());
        cfg.argv       = argv.data();
        cfg.noise      = s.noise;
        cfg.alloc_fail = s.alloc_fail;
        cfg.alloc_mode = s.alloc_mode;
        cfg.step_limit = step_limit;
        cfg.sock       = sv[1];
        cfg.ch         = c.ch;
        child_main(cfg);
    }
    close(sv[1]);
    c.sock  = sv[0];
    c.state = Child::RUNNING;
}
void finish(Child &c, bool hang)
{
    if (hang) kill(c.pid, SIGKILL);
    int st = 0;
    while (waitpid(c.pid, &st, 0) < 0 && errno == EINTR)
        ;
    close(c.sock);
    c.state            = Child::DONE;
    c.res.steps        = c.ch->steps;
    c.res.allocs       = c.ch->allocs;
    c.res.alloc_failed = c.ch->alloc_failed;
    c.res.out          = c.proc.out;
    c.res.err          = c.proc.err;
    if (c.res.killed) return;
    if (hang)
        c.res.death = "hang";
    else if (WIFSIGNALED(st))
    {
        c.res.signal = WTERMSIG(st);
        c.res.death  = "crash";
    }
    else if (c.ch->step_limit_hit)
        c.res.death = "step-limit";
    else if (c.ch->type != Chan::EXIT)
    {
        c.res.signal = 0;
        c.res.death  = "crash"; // ended outside of exit(): sanitizer abort or _exit behind the simulator's back
    }
    else
    {
        c.res.exited = true;
        c.res.status = c.ch->exit_status & 0xff;
        if (c.res.status == 99 && c.res.err.find("AddressSanitizer") != std::string::npos)
        {
            c.res.exited = false;
            c.res.death  = "asan";
        }
    }
}
int acc(int flags) { return flags & O_ACCMODE; }
bool is_write_fd(const OpenFileP &f) { return f && acc(f->flags) != O_RDONLY; }
OpenFileP fd_of(Proc &p, long fd)
{
    auto it = p.fds.find(int(fd));
    return it == p.fds.end() ? nullptr : it->second;
}
std::string at_path(Proc &p, long dfd, const char *path, int &err)
{
    err = 0;
    if (path[0] == '/' || int(dfd) == AT_FDCWD) return path;
    auto f = fd_of(p, dfd);
    if (!f || !f->ino || !f->ino->dir)
    {
        err = f ? ENOTDIR : EBADF;
        return "";
    }
    return f->path + "/" + path;
}
// the paths of the path-taking calls, relative to the process
bool call_paths(Proc &p, const Chan &ch, std::string &a, std::string &b)
{
    int err = 0;
    switch (ch.nr)
    {
    case SYS_open: case SYS_creat: case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_access: case SYS_chmod: case SYS_truncate:
    case SYS_chdir: case SYS_stat: case SYS_lstat: case SYS_readlink:
        a = ch.path1;
        return true;
    case SYS_openat: case SYS_mkdirat: case SYS_unlinkat: case SYS_faccessat: case SYS_faccessat2: case SYS_fchmodat: case SYS_newfstatat:
    case SYS_statx: case SYS_readlinkat: case SYS_utimensat:
        a = at_path(p, ch.a[0], ch.path1, err);
        return true;
    case SYS_rename: case SYS_link:
        a = ch.path1;
        b = ch.path2;
        return true;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat:
        a = at_path(p, ch.a[0], ch.path1, err);
        b = at_path(p, ch.a[2], ch.path2, err);
        return true;
    default: return false;
    }
}
void classify(Child &c)
{
    Chan &ch = *c.ch;
    Call &k  = c.call;
    k        = Call{};
    k.proc   = c.id;
    k.index  = c.proc.nsys++;
    k.nr     = ch.nr;
    std::string a, b;
    if (call_paths(c.proc, ch, a, b))
    {
        k.path = a.empty() ? "" : SimFS::normalize(c.proc.cwd, a);
        if (!b.empty()) k.path2 = SimFS::normalize(c.proc.cwd, b);
    }
    switch (ch.nr)
    {
    case SYS_creat: k.cls = SC_OPEN_W; break;
    case SYS_open: k.cls = acc(int(ch.a[1])) == O_RDONLY ? SC_OPEN_R : SC_OPEN_W; break;
    case SYS_openat: k.cls = acc(int(ch.a[2])) == O_RDONLY ? SC_OPEN_R : SC_OPEN_W; break;
    case SYS_mkdir: case SYS_mkdirat: k.cls = SC_MKDIR; break;
    case SYS_stat: case SYS_lstat: case SYS_statx: case SYS_access: case SYS_faccessat: case SYS_faccessat2: case SYS_readlink: case SYS_readlinkat:
        k.cls = SC_STAT;
        break;
    case SYS_newfstatat: k.cls = SC_STAT; break;
    case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: k.cls = SC_RENAME; break;
    case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: k.cls = SC_UNLINK; break;
    case SYS_truncate: case SYS_chmod: case SYS_fchmodat: case SYS_utimensat: k.cls = SC_TRUNC; break;
    case SYS_getcwd: case SYS_chdir: k.cls = SC_OTHER; break;
    case SYS_read: case SYS_pread64: case SYS_write: case SYS_pwrite64: case SYS_close: case SYS_fstat: case SYS_lseek: case SYS_ftruncate:
    case SYS_fsync: case SYS_fdatasync: case SYS_getdents64: case SYS_fallocate: case SYS_fadvise64: case SYS_ioctl: case SYS_fcntl: case SYS_sendfile:
    case SYS_copy_file_range: case SYS_dup: case SYS_dup2: case SYS_dup3:
    {
        auto f = fd_of(c.proc, ch.a[0]);
        if (f) k.path = f->path;
        bool w  = is_write_fd(f);
        bool sd = f && f->dev;
        switch (ch.nr)
        {
        case SYS_read: case SYS_pread64:
            k.cls = sd ? SC_STDIO : SC_READ;
            k.len = size_t(ch.a[2]);
            break;
        case SYS_write: case SYS_pwrite64:
            k.cls = sd ? SC_STDIO : SC_WRITE;
            k.len = ch.dlen;
            break;
        case SYS_close: k.cls = sd ? SC_STDIO : w ? SC_CLOSE_W : SC_CLOSE_R; break;
        case SYS_fstat: k.cls = sd ? SC_STDIO : SC_STAT; break;
        case SYS_lseek: k.cls = sd ? SC_STDIO : SC_SEEK; break;
        case SYS_ftruncate: case SYS_fallocate: k.cls = SC_TRUNC; break;
        case SYS_fsync: case SYS_fdatasync: k.cls = SC_SYNC; break;
        case SYS_getdents64: k.cls = SC_DIR; break;
        default: k.cls = SC_OTHER;
        }
        break;
    }
    default: k.cls = SC_OTHER;
    }
}
void fill_stat(const SimFS &fs, const Inode *n, int dev, struct stat &st)
{
    memset(&st, 0, sizeof st);
    st.st_dev     = 42;
    st.st_blksize = 4096;
    st.st_nlink   = 1;
    st.st_uid = st.st_gid = 1000;
    if (!n)
    {
        st.st_mode = S_IFIFO | 0600;
        st.st_ino  = 1000000 + unsigned(dev);
        return;
    }
    st.st_ino          = n->ino;
    st.st_mode         = (n->dir ? S_IFDIR : S_IFREG) | n->mode;
    st.st_size         = n->dir ? 4096 : long(n->data.size());
    st.st_blocks       = (st.st_size + 511) / 512;
    st.st_mtim.tv_sec  = long(n->mtime);
    st.st_ctim = st.st_atim = st.st_mtim;
    (void)fs;
}
void fill_statx(const SimFS &fs, const Inode *n, int dev, struct statx &x)
{
    struct stat st;
    fill_stat(fs, n, dev, st);
    memset(&x, 0, sizeof x);
    x.stx_mask           = STATX_BASIC_STATS;
    x.stx_blksize        = 4096;
    x.stx_nlink          = 1;
    x.stx_uid = x.stx_gid = 1000;
    x.stx_mode           = uint16_t(st.st_mode);
    x.stx_ino            = st.st_ino;
    x.stx_size           = uint64_t(st.st_size);
    x.stx_blocks         = uint64_t(st.st_blocks);
    x.stx_mtime.tv_sec   = st.st_mtim.tv_sec;
    x.stx_ctime = x.stx_atime = x.stx_mtime;
    x.stx_dev_minor      = 42;
}
long do_write(SimFS &fs, Proc &p, const OpenFileP &f, const char *d, size_t n, long at)
{
    if (!f) return -EBADF;
    if (f->dev == 1 || f->dev == 2)
    {
        auto &s = f->dev == 1 ? p.out : p.err;
        if (s.size() < (1u << 20)) s.append(d, n);
        return long(n);
    }
    if (f->dev == 3) return long(n);
    if (acc(f->flags) == O_RDONLY) return -EBADF;
    Inode &i   = *f->ino;
    size_t pos = at >= 0 ? size_t(at) : (f->flags & O_APPEND) ? i.data.size() : f->pos;
    size_t old = i.data.size();
    size_t end = pos + n;
    if (end > old)
    {
        uint64_t need = end - old;
        uint64_t room = fs.capacity > fs.used ? fs.capacity - fs.used : 0;
        if (need > room)
        {
            if (room == 0 || old + room <= pos) return -ENOSPC;
            end = size_t(old + room);
            n   = end - pos;
        }
        i.data.resize(end, '\0');
        fs.used += end - old;
    }
    memcpy(i.data.data() + pos, d, n);
    i.dirty  = true;
    if (pos < i.synced) i.synced = pos;
    i.mtime  = fs.clock;
    if (at < 0) f->pos = end;
    return long(n);
}
void set_size(SimFS &fs, Inode &i, size_t n)
{
    if (n < i.data.size())
        fs.used -= i.data.size() - n;
    else
        fs.used += n - i.data.size();
    i.data.resize(n, '\0');
    i.dirty = true;
    if (i.synced > n) i.synced = n;
    i.mtime = fs.clock;
}
long do_open(SimFS &fs, Proc &p, const std::string &path, int flags, int mode)
{
    int err;
    std::string name;
    auto n = fs.walk(p.cwd, path, err);
    if (!n)
    {
        if (err != ENOENT || !(flags & O_CREAT)) return -err;
        auto d = fs.walk_parent(p.cwd, path, name, err);
        if (!d) return -err;
        if (!(d->mode & 0200)) return -EACCES;
        if (path.back() == '/') return -EISDIR;
        n          = std::make_shared<Inode>();
        n->ino     = fs.next_ino++;
        n->mode    = uint32_t(mode) & 0755;
        n->mtime   = fs.clock;
        n->creator = p.id;
        n->dirty   = true;
        d->kids[name] = n;
    }
    else
    {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
        if (n->dir && (acc(flags) != O_RDONLY || (flags & O_CREAT))) return -EISDIR;
        if (!n->dir && (flags & O_DIRECTORY)) return -ENOTDIR;
        if (acc(flags) != O_WRONLY && !(n->mode & 0400)) return -EACCES;
        if (acc(flags) != O_RDONLY && !(n->mode & 0200)) return -EACCES;
        if ((flags & O_TRUNC) && acc(flags) != O_RDONLY) set_size(fs, *n, 0);
    }
    auto f   = std::make_shared<OpenFile>();
    f->ino   = n;
    f->flags = flags;
    f->path  = SimFS::normalize(p.cwd, path);
    int fd   = 0;
    while (p.fds.count(fd)) fd++;
    p.fds[fd] = f;
    return fd;
}
long serve(SimFS &fs, Child &c)
{
    Chan &ch = *c.ch;
    Proc &p  = c.proc;
    int err  = 0;
    std::string a, b;
    if (call_paths(p, ch, a, b) && a.empty() && ch.path1[0]) return -EBADF;
    auto put_stat = [&](const Inode *n, int dev)
    {
        struct stat st;
        fill_stat(fs, n, dev, st);
        memcpy(ch.data, &st, sizeof st);
        ch.dlen = sizeof st;
        return 0l;
    };
    switch (ch.nr)
    {
    case SYS_open: return do_open(fs, p, a, int(ch.a[1]), int(ch.a[2]));
    case SYS_openat: return do_open(fs, p, a, int(ch.a[2]), int(ch.a[3]));
    case SYS_creat: return do_open(fs, p, a, O_CREAT | O_WRONLY | O_TRUNC, int(ch.a[1]));
    case SYS_read:
    case SYS_pread64:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f) return -EBADF;
        if (f->dev) return 0;
        if (acc(f->flags) == O_WRONLY) return -EBADF;
        if (f->ino->dir) return -EISDIR;
        size_t pos = ch.nr == SYS_pread64 ? size_t(ch.a[3]) : f->pos;
        size_t n   = size_t(ch.a[2]);
        if (n > Chan::CAP) n = Chan::CAP;
        if (pos >= f->ino->data.size())
            n = 0;
        else if (n > f->ino->data.size() - pos)
            n = f->ino->data.size() - pos;
        memcpy(ch.data, f->ino->data.data() + pos, n);
        ch.dlen = uint32_t(n);
        if (ch.nr == SYS_read) f->pos = pos + n;
        return long(n);
    }
    case SYS_write: return do_write(fs, p, fd_of(p, ch.a[0]), ch.data, ch.dlen, -1);
    case SYS_pwrite64: return do_write(fs, p, fd_of(p, ch.a[0]), ch.data, ch.dlen, ch.a[3]);
    case SYS_close:
        if (!p.fds.erase(int(ch.a[0]))) return -EBADF;
        return 0;
    case SYS_dup:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f) return -EBADF;
        int fd = 0;
        while (p.fds.count(fd)) fd++;
        p.fds[fd] = f;
        return fd;
    }
    case SYS_dup2:
    case SYS_dup3:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f) return -EBADF;
        p.fds[int(ch.a[1])] = f;
        return ch.a[1];
    }
    case SYS_stat:
    case SYS_lstat:
    {
        auto n = fs.walk(p.cwd, a, err);
        if (!n) return -err;
        return put_stat(n.get(), 0);
    }
    case SYS_fstat:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f) return -EBADF;
        return put_stat(f->ino.get(), f->dev);
    }
    case SYS_newfstatat:
    case SYS_statx:
    {
        InodeP n;
        int dev = 0;
        if (!ch.path1[0])
        {
            if (!(ch.a[ch.nr == SYS_statx ? 2 : 3] & AT_EMPTY_PATH)) return -ENOENT;
            auto f = fd_of(p, ch.a[0]);
            if (!f) return -EBADF;
            n   = f->ino;
            dev = f->dev;
        }
        else
        {
            n = fs.walk(p.cwd, a, err);
            if (!n) return -err;
        }
        if (ch.nr == SYS_newfstatat) return put_stat(n.get(), dev);
        struct statx x;
        fill_statx(fs, n.get(), dev, x);
        memcpy(ch.data, &x, sizeof x);
        ch.dlen = sizeof x;
        return 0;
    }
    case SYS_access: case SYS_faccessat: case SYS_faccessat2:
    {
        auto n = fs.walk(p.cwd, a, err);
        if (!n) return -err;
        long m = ch.a[ch.nr == SYS_access ? 1 : 2];
        if ((m & R_OK) && !(n->mode & 0400)) return -EACCES;
        if ((m & W_OK) && !(n->mode & 0200)) return -EACCES;
        if ((m & X_OK) && !(n->mode & 0100)) return -EACCES;
        return 0;
    }
    case SYS_readlink:
    case SYS_readlinkat:
    {
        auto n = fs.walk(p.cwd, a, err);
        return n ? -EINVAL : -err;
    }
    case SYS_mkdir:
    case SYS_mkdirat:
    {
        std::string name, q = a;
        while (q.size() > 1 && q.back() == '/') q.pop_back();
        if (fs.walk(p.cwd, q, err)) return -EEXIST;
        if (err != ENOENT) return -err;
        auto d = fs.walk_parent(p.cwd, q, name, err);
        if (!d) return -err;
        if (!(d->mode & 0200)) return -EACCES;
        auto n        = std::make_shared<Inode>();
        n->ino        = fs.next_ino++;
        n->dir        = true;
        n->mode       = uint32_t(ch.a[ch.nr == SYS_mkdir ? 1 : 2]) & 0755;
        n->mtime      = fs.clock;
        n->parent     = d;
        n->creator    = p.id;
        n->dirty      = true;
        d->kids[name] = n;
        return 0;
    }
    case SYS_rmdir: case SYS_unlink: case SYS_unlinkat:
    {
        std::string name;
        auto d = fs.walk_parent(p.cwd, a, name, err);
        if (!d) return -err;
        auto it = d->kids.find(name);
        if (it == d->kids.end()) return -ENOENT;
        bool want_dir = ch.nr == SYS_rmdir || (ch.nr == SYS_unlinkat && (ch.a[2] & AT_REMOVEDIR));
        if (want_dir && !it->second->dir) return -ENOTDIR;
        if (!want_dir && it->second->dir) return -EISDIR;
        if (want_dir && !it->second->kids.empty()) return -ENOTEMPTY;
        if (!(d->mode & 0200)) return -EACCES;
        if (!want_dir) fs.used -= it->second->data.size(); // hard links are not modelled
        d->kids.erase(it);
        return 0;
    }
    case SYS_rename: case SYS_renameat: case SYS_renameat2:
    {
        std::string na, nb;
        auto da = fs.walk_parent(p.cwd, a, na, err);
        if (!da) return -err;
        auto db = fs.walk_parent(p.cwd, b, nb, err);
        if (!db) return -err;
        auto ia = da->kids.find(na);
        if (ia == da->kids.end()) return -ENOENT;
        auto n  = ia->second;
        auto ib = db->kids.find(nb);
        if (ch.nr == SYS_renameat2 && (ch.a[4] & 1 /*NOREPLACE*/) && ib != db->kids.end()) return -EEXIST;
        if (ch.nr == SYS_renameat2 && (ch.a[4] & ~1l)) return -EINVAL;
        if (!(da->mode & 0200) || !(db->mode & 0200)) return -EACCES;
        if (ib != db->kids.end())
        {
            if (ib->second == n) return 0;
            if (ib->second->dir && !n->dir) return -EISDIR;
            if (!ib->second->dir && n->dir) return -ENOTDIR;
            if (ib->second->dir && !ib->second->kids.empty()) return -ENOTEMPTY;
            if (!ib->second->dir) fs.used -= ib->second->data.size();
        }
        da->kids.erase(ia);
        db->kids[nb] = n;
        if (n->dir) n->parent = db;
        return 0;
    }
    case SYS_truncate:
    {
        auto n = fs.walk(p.cwd, a, err);
        if (!n) return -err;
        if (n->dir) return -EISDIR;
        set_size(fs, *n, size_t(ch.a[1]));
        return 0;
    }
    case SYS_ftruncate:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f || !f->ino || f->ino->dir) return -EBADF;
        if (acc(f->flags) == O_RDONLY) return -EINVAL;
        set_size(fs, *f->ino, size_t(ch.a[1]));
        return 0;
    }
    case SYS_fallocate: return -EOPNOTSUPP;
    case SYS_fadvise64: return 0;
    case SYS_lseek:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f) return -EBADF;
        if (f->dev) return -ESPIPE;
        long base = ch.a[2] == SEEK_SET ? 0 : ch.a[2] == SEEK_CUR ? long(f->pos) : ch.a[2] == SEEK_END ? long(f->ino->data.size()) : -1;
        if (base < 0 || base + ch.a[1] < 0) return -EINVAL;
        f->pos = size_t(base + ch.a[1]);
        return long(f->pos);
    }
    case SYS_fsync: case SYS_fdatasync:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f) return -EBADF;
        if (f->ino)
        {
            f->ino->synced = f->ino->data.size();
            f->ino->dirty  = false;
        }
        return 0;
    }
    case SYS_getdents64:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f) return -EBADF;
        if (!f->ino || !f->ino->dir) return -ENOTDIR;
        size_t k = 0, cap = size_t(ch.a[2]), at = 0;
        for (auto &e : f->ino->kids)
        {
            if (k++ < f->dirpos) continue;
            size_t rl = (19 + e.first.size() + 1 + 7) / 8 * 8;
            if (at + rl > cap || at + rl > Chan::CAP) break;
            memset(ch.data + at, 0, rl);
            *(uint64_t *)(ch.data + at)      = e.second->ino;
            *(int64_t *)(ch.data + at + 8)   = int64_t(k);
            *(uint16_t *)(ch.data + at + 16) = uint16_t(rl);
            ch.data[at + 18]                 = e.second->dir ? DT_DIR : DT_REG;
            memcpy(ch.data + at + 19, e.first.c_str(), e.first.size() + 1);
            at += rl;
            f->dirpos = k;
        }
        ch.dlen = uint32_t(at);
        return long(at);
    }
    case SYS_getcwd:
        if (p.cwd.size() + 1 > size_t(ch.a[1])) return -ERANGE;
        memcpy(ch.data, p.cwd.c_str(), p.cwd.size() + 1);
        ch.dlen = uint32_t(p.cwd.size() + 1);
        return long(ch.dlen);
    case SYS_chdir:
    {
        auto n = fs.walk(p.cwd, a, err);
        if (!n) return -err;
        if (!n->dir) return -ENOTDIR;
        p.cwd = SimFS::normalize(p.cwd, a);
        return 0;
    }
    case SYS_chmod: case SYS_fchmodat:
    {
        auto n = fs.walk(p.cwd, a, err);
        if (!n) return -err;
        n->mode = uint32_t(ch.a[ch.nr == SYS_chmod ? 1 : 2]) & 07777;
        return 0;
    }
    case SYS_fchmod:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f || !f->ino) return -EBADF;
        f->ino->mode = uint32_t(ch.a[1]) & 07777;
        return 0;
    }
    case SYS_umask: return 022;
    case SYS_utimensat:
    {
        if (!ch.path1[0])
        {
            auto f = fd_of(p, ch.a[0]);
            return f ? 0 : -EBADF;
        }
        auto n = fs.walk(p.cwd, a, err);
        return n ? 0 : -err;
    }
    case SYS_fcntl:
    {
        auto f = fd_of(p, ch.a[0]);
        if (!f) return -EBADF;
        switch (ch.a[1])
        {
        case F_GETFD: return FD_CLOEXEC;
        case F_SETFD: return 0;
        case F_GETFL: return f->flags;
        case F_SETFL: return 0;
        case F_DUPFD:
        case F_DUPFD_CLOEXEC:
        {
            int fd = int(ch.a[2]);
            while (p.fds.count(fd)) fd++;
            p.fds[fd] = f;
            return fd;
        }
        case F_SETLK: case F_SETLKW: case F_GETLK: return 0;
        default: return -EINVAL;
        }
    }
    case SYS_flock: return 0;
    case SYS_ioctl: return fd_of(p, ch.a[0]) ? -ENOTTY : -EBADF;
    case SYS_clock_gettime: case SYS_gettimeofday: case SYS_time:
    {
        int64_t t[2] = {int64_t(fs.clock), 0};
        memcpy(ch.data, t, 16);
        ch.dlen = 16;
        return ch.nr == SYS_time ? t[0] : 0;
    }
    case SYS_nanosleep:
    case SYS_clock_nanosleep: fs.clock += 1; return 0;
    case SYS_getrandom:
    {
        size_t n = size_t(ch.a[1]) < 4096 ? size_t(ch.a[1]) : 4096;
        Prng r(fs.clock * 977 + uint64_t(p.id));
        for (size_t i = 0; i < n; i++) ch.data[i] = char(r.below(256));
        ch.dlen = uint32_t(n);
        return long(n);
    }
    case SYS_uname:
    case SYS_sysinfo: return -ENOSYS;
    default: return -ENOSYS;
    }
}
// waits until the child traps again or ends
void settle(Child &c)
{
    pollfd pf{c.sock, POLLIN, 0};
    int r;
    while ((r = poll(&pf, 1, HANG_MS)) < 0 && errno == EINTR)
        ;
    if (r == 0) return finish(c, true);
    char b;
    ssize_t n;
    while ((n = recv(c.sock, &b, 1, 0)) < 0 && errno == EINTR)
        ;
    if (n != 1) return finish(c, false);
    if (c.ch->type == Chan::EXIT) return finish(c, false);
    c.state = Child::TRAPPED;
    classify(c);
}
} // namespace
std::vector<InstanceResult> run_instances(SimFS &fs, const std::vector<InstanceSpec> &specs, const FaultFn &fault, const PickFn &pick,
                                          uint64_t step_limit)
{
    heap::Pause hp;
    std::vector<Child> cs(specs.size());
    for (size_t i = 0; i < specs.size(); i++)
    {
        Child &c   = cs[i];
        c.id       = int(i);
        c.proc.id  = int(i);
        c.proc.cwd = specs[i].cwd;
        for (int d = 0; d < 3; d++)
        {
            auto f     = std::make_shared<OpenFile>();
            f->dev     = d == 0 ? 3 : d;
            f->flags   = d == 0 ? O_RDONLY : O_WRONLY;
            f->path    = d == 0 ? "<stdin>" : d == 1 ? "<stdout>" : "<stderr>";
            c.proc.fds[d] = f;
        }
        spawn(c, specs[i], step_limit);
    }
    for (;;)
    {
        std::vector<int> ready;
        for (auto &c : cs)
        {
            if (c.state == Child::RUNNING) settle(c);
            if (c.state == Child::TRAPPED) ready.push_back(c.id);
        }
        if (ready.empty()) break;
        size_t k = ready.size() > 1 && pick ? pick(ready) % ready.size() : 0;
        Child &c = cs[size_t(ready[k])];
        fs.clock++;
        Fault f;
        if (fault) f = fault(c.call);
        fs.clock += f.delay;
        Chan &ch  = *c.ch;
        Call &cl  = c.call;
        cl.fault  = f.kind;
        bool die  = false;
        auto of   = fd_of(c.proc, ch.a[0]);
        switch (f.kind)
        {
        case Fault::NONE: ch.ret = serve(fs, c); break;
        case Fault::ERR:
            if (ch.nr == SYS_close) c.proc.fds.erase(int(ch.a[0])); // the descriptor is gone in any case
            ch.dlen = 0;
            ch.ret  = -f.err;
            break;
        case Fault::ERR_DIRTY:
            if (cl.cls == SC_WRITE) do_write(fs, c.proc, of, ch.data, f.n < ch.dlen ? f.n : ch.dlen, ch.nr == SYS_pwrite64 ? ch.a[3] : -1);
            ch.dlen = 0;
            ch.ret  = -f.err;
            break;
        case Fault::SHORT:
            if (cl.cls == SC_WRITE && ch.dlen > f.n) ch.dlen = uint32_t(f.n);
            if (cl.cls == SC_READ && size_t(ch.a[2]) > f.n) ch.a[2] = long(f.n);
            ch.ret = serve(fs, c);
            break;
        case Fault::KILL: die = true; break;
        case Fault::KILL_TORN:
            if (cl.cls == SC_WRITE) do_write(fs, c.proc, of, ch.data, f.n < ch.dlen ? f.n : ch.dlen, ch.nr == SYS_pwrite64 ? ch.a[3] : -1);
            die = true;
            break;
        case Fault::KILL_AFTER:
            ch.ret = serve(fs, c);
            die    = true;
            break;
        case Fault::LOSE:
            if (of && of->ino && !of->ino->dir && ch.nr == SYS_close)
                set_size(fs, *of->ino, f.n < of->ino->data.size() ? f.n : of->ino->data.size());
            if (ch.nr == SYS_close) c.proc.fds.erase(int(ch.a[0]));
            ch.dlen = 0;
            ch.ret  = -f.err;
            break;
        }
        cl.ret = die ? 0 : ch.ret;
        if (R && cl.cls != SC_STDIO)
        {
            uint64_t h = hash_bytes(cl.path.data(), cl.path.size());
            R->evh(mix(h, mix(uint64_t(cl.proc) << 32 | uint64_t(cl.cls) << 8 | unsigned(f.kind), uint64_t(cl.ret) * 31 + cl.len)));
            if (R->verbose && cl.cls != SC_OTHER) R->log.push_back(call_text(cl));
        }
        c.res.trace.push_back(cl);
        if (die)
        {
            c.res.killed = true;
            finish(c, true);
            c.res.death.clear();
            continue;
        }
        c.state = Child::RUNNING;
        if (!xwrite(c.sock)) {} // the end of the child is noticed by settle()
    }
    std::vector<InstanceResult> out;
    for (auto &c : cs) out.push_back(std::move(c.res));
    return out;
}
InstanceResult run_one(SimFS &fs, const InstanceSpec &spec, const FaultFn &fault, uint64_t step_limit)
{
    return std::move(run_instances(fs, {spec}, fault, {}, step_limit)[0]);
}
} // namespace sim
