// simrt storage: the file operations of the C library, on a scratch directory, with injected faults.
//
// The bytes live in real files of a scratch directory (reached with raw system calls), every
// operation first goes through the simulator, which decides if it fails, is cut short, is
// interrupted, or if the process dies there.
#define _GNU_SOURCE 1
#include "simrt_core.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <cstdarg>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <linux/stat.h>

namespace sim {
namespace disk {
    const char* kind_name[nkind] = {
        "open_fail", "read_eio", "read_short", "read_eintr", "write_eio", "write_short", "write_eintr",
        "disk_full", "close_fail", "sync_fail", "stat_fail", "dir_fail", "mkdir_fail", "remove_fail",
        "rename_fail", "trunc_fail", "seek_fail", "crash", "readdir_order", "no_dtype", "intruder"
    };

    static uint32_t allowed = 0;
    static bool armed = false;
    struct pending { int kind; int64_t gap; bool sticky, done; int var; };
    enum { NPEND = 4 };
    static pending pend[NPEND];
    static int npend = 0;
    static int64_t capacity = -1;     // bytes left on the disk (-1: no limit)
    static int64_t real_capacity = -1;

    enum { NFD = 1024, NFILE = 256 };
    struct fdinfo { bool used; bool written; bool is_stream; int id; };
    static fdinfo fds[NFD];
    static int nopen = 0, next_id = 0;
    struct fileent { FILE* f; int fd; };
    static fileent files[NFILE];

    void allow(uint32_t m) { allowed = m; }
    uint64_t fired(kind_t k) { return sh->fault[k]; }
    static const uint32_t benign_mask = (1u << read_short)|(1u << read_eintr)|(1u << write_short)|(1u << write_eintr)
        |(1u << readdir_order)|(1u << no_dtype);
    uint64_t fired_any() { uint64_t n = 0; for (int i = 0; i < nkind; ++i) if (!(benign_mask & (1u << i))) n += sh->fault[i]; return n; }
    uint64_t benign() { uint64_t n = 0; for (int i = 0; i < nkind; ++i) if (benign_mask & (1u << i)) n += sh->fault[i]; return n; }
    void reset_fired() { for (int i = 0; i < nkind; ++i) sh->fault[i] = 0; }
    int open_files() { return nopen; }
    uint64_t ops() { return sh->io_ops; }

    void arm() {
        armed = true; npend = 0; capacity = real_capacity;
        if (!allowed || !g.opt.io) return;
        int n = fdraw(4);
        if (n == 3) n = fdraw(NPEND+1);
        int ks[nkind], nk = 0;
        for (int i = 0; i < nkind; ++i) if (allowed & (1u << i)) ks[nk++] = i;
        for (int i = 0; i < n; ++i) {
            pending& p = pend[npend];
            p.kind = ks[fdraw(nk)];
            uint32_t st = fdraw(8);
            p.gap = fdraw(st < 3 ? 2 : st < 5 ? 6 : st < 7 ? 30 : 300);
            p.sticky = fdraw(3) == 2;
            p.var = fdraw(8);
            p.done = false;
            if (p.kind == read_eintr || p.kind == write_eintr || p.kind == intruder) p.sticky = false; // (retried at once)
            if (p.kind == disk_full) {
                uint32_t sc = fdraw(4);
                capacity = fdraw(sc == 0 ? 64 : sc == 1 ? 3000 : sc == 2 ? 20000 : 200000);
                // (counted when it is hit)
                continue;
            }
            ++npend;
        }
    }
    void disarm() { armed = false; real_capacity = capacity = -1; npend = 0; }

    static bool watched() { return g.active && me && !me->nohook; }

    static pending* fire(int kind) {
        if (!armed) return nullptr;
        for (int i = 0; i < npend; ++i) {
            pending& p = pend[i];
            if (p.kind != kind) continue;
            if (p.done && !p.sticky) continue;
            if (p.gap > 0) { --p.gap; continue; }
            if (!p.done || p.sticky) {
                p.done = true;
                count_fault(kind);
                trace("fault: %s", kind_name[kind]);
                mix(sh->hash, 900+kind);
                return &p;
            }
        }
        return nullptr;
    }

    static std::function<void()> intruder_fn;
    void on_intruder(const std::function<void()>& f) { intruder_fn = f; }

    static void io_op(const char* name, uint64_t a = 0, uint64_t b = 0) {
        if (intruder_fn && fire(intruder)) { silent s; bool a = armed; armed = false; intruder_fn(); intruder_fn = nullptr; armed = a; }
        ++sh->io_ops;
        mix(sh->hash, *name); mix(sh->hash, a); mix(sh->hash, b);
        g.now += 1000;
        if (sh->io_ops > g.opt.max_io) {
            violation("no-progress", "the process did more than %llu I/O operations without finishing, last: %s",
                (unsigned long long)g.opt.max_io, name);
        }
        sync_event();
    }

    static void crash_point() {
        if (fire(crash)) {
            sh->simtime += g.now; sh->steps += g.steps; sh->syncs += g.syncs; sh->switches += g.switches;
            _exit(CODE_CRASH);
        }
    }

    void crash_now() {
        count_fault(crash); trace("the process is killed"); mix(sh->hash, 900+crash);
        sh->simtime += g.now; sh->steps += g.steps; sh->syncs += g.syncs; sh->switches += g.switches;
        _exit(CODE_CRASH);
    }

    static bool in_root(const char* p) {
        if (!p) return false;
        size_t n = strlen(root);
        if (p[0] != '/') return strncmp(p, "mem://", 6) != 0;
        return strncmp(p, root, n) == 0 && (p[n] == '/' || p[n] == 0);
    }

    static bool is_sim_fd(int fd) { return fd >= 0 && fd < NFD && fds[fd].used; }

    static void add_fd(int fd, bool stream) {
        if (fd >= NFD) die("too many open files");
        fds[fd].used = true; fds[fd].written = false; fds[fd].is_stream = stream; fds[fd].id = next_id++; ++nopen;
    }

    // ---- primitive operations -----------------------------------------------------------
    static uint64_t hash_path(const char* p) { uint64_t h = 0; if (!strncmp(p, root, strlen(root))) p += strlen(root); for (; *p; ++p) mix(h, *p); return h; }

    static int sim_open(const char* path, int flags, mode_t mode, bool stream) {
        io_op("open", hash_path(path), flags & (O_ACCMODE|O_CREAT|O_TRUNC|O_APPEND));
        bool mutating = flags & (O_CREAT|O_TRUNC);
        if (mutating) crash_point();
        if (pending* p = fire(open_fail)) {
            static const int e[] = {EACCES, EMFILE, EIO, ENFILE, EACCES, EINTR, ENOMEM, EMFILE};
            errno = (flags & O_ACCMODE) != O_RDONLY && p->var == 2 ? EROFS : e[p->var];
            trace("open(\"%s\") fails", path);
            return -1;
        }
        // A full disk cannot hold a new file
        if ((flags & O_CREAT) && armed && capacity == 0) {
            struct stat s;
            if (syscall(SYS_newfstatat, AT_FDCWD, path, &s, 0) != 0) { count_fault(disk_full); errno = ENOSPC; return -1; }
        }
        int fd = syscall(SYS_openat, AT_FDCWD, path, flags|O_CLOEXEC, mode);
        trace("open(\"%s\", %s%s%s) = %s", path, (flags & O_ACCMODE) == O_RDONLY ? "r" : (flags & O_ACCMODE) == O_WRONLY ? "w" : "rw",
            flags & O_CREAT ? ",creat" : "", flags & O_TRUNC ? ",trunc" : "", fd >= 0 ? "ok" : "error");
        if (fd >= 0) add_fd(fd, stream);
        mix(sh->hash, fd >= 0);
        return fd;
    }

    static ssize_t sim_read(int fd, void* b, size_t n, bool sync = true) {
        if (sync) io_op("read", fds[fd].id, n); else { ++me->nohook; io_op("read", fds[fd].id, n); --me->nohook; }
        if (fire(read_eio)) { errno = EIO; return -1; }
        if (fire(read_eintr)) { errno = EINTR; return -1; }
        if (n > 1) if (pending* p = fire(read_short)) n = 1 + (n-1)*(p->sticky && !p->var ? 1 : p->var)/16;
        ssize_t r = syscall(SYS_read, fd, b, n);
        trace("read(file %d, %zu) = %zd", fds[fd].id, n, r);
        mix(sh->hash, r);
        return r;
    }

    static ssize_t sim_write(int fd, const void* b, size_t n, bool sync = true) {
        if (sync) io_op("write", fds[fd].id, n); else { ++me->nohook; io_op("write", fds[fd].id, n); --me->nohook; }
        if (pending* p = fire(crash)) {
            // torn write
            if (n) syscall(SYS_write, fd, b, n*p->var/8);
            sh->simtime += g.now; sh->steps += g.steps; sh->syncs += g.syncs; sh->switches += g.switches;
            _exit(CODE_CRASH);
        }
        if (pending* p = fire(write_eio)) { errno = p->var & 1 ? EDQUOT : EIO; return -1; }
        if (fire(write_eintr)) { errno = EINTR; return -1; }
        if (n > 1) if (pending* p = fire(write_short)) n = 1 + (n-1)*(p->sticky && !p->var ? 1 : p->var)/16;
        if (armed && capacity >= 0) {
            // overwriting does not need space
            off_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
            struct stat s; syscall(SYS_fstat, fd, &s);
            int fl = syscall(SYS_fcntl, fd, F_GETFL);
            if (fl & O_APPEND) pos = s.st_size;
            int64_t need = int64_t(pos) + int64_t(n) - int64_t(s.st_size);
            if (need > capacity) {
                count_fault(disk_full);
                mix(sh->hash, 990);
                int64_t can = int64_t(n) - (need - capacity);
                trace("disk full: write(file %d, %zu) -> %lld", fds[fd].id, n, (long long)(can > 0 ? can : -1));
                if (can <= 0) { errno = ENOSPC; return -1; }
                n = can; need = capacity;
            }
            if (need > 0) capacity -= need;
        }
        ssize_t r = syscall(SYS_write, fd, b, n);
        fds[fd].written = true;
        trace("write(file %d, %zu) = %zd", fds[fd].id, n, r);
        mix(sh->hash, r);
        return r;
    }

    static int sim_close(int fd, bool sync = true) {
        if (sync) io_op("close", fds[fd].id); else { ++me->nohook; io_op("close", fds[fd].id); --me->nohook; }
        bool w = fds[fd].written;
        int id = fds[fd].id;
        fds[fd].used = false; --nopen;
        if (w) crash_point();
        bool lost = w && fire(close_fail);
        if (lost) {
            // what was written back late did not make it to the disk
            struct stat s; syscall(SYS_fstat, fd, &s);
            syscall(SYS_ftruncate, fd, s.st_size/2);
        }
        int r = syscall(SYS_close, fd);
        trace("close(file %d)", id);
        if (lost) { errno = EIO; return -1; }
        return r;
    }

    static off64_t sim_seek(int fd, off64_t o, int wh, bool sync = true) {
        ++sh->io_ops;
        mix(sh->hash, o); mix(sh->hash, wh);
        if (sh->io_ops > g.opt.max_io) violation("no-progress", "too many I/O operations, last: seek");
        if (fire(seek_fail)) { errno = EIO; return -1; }
        return syscall(SYS_lseek, fd, o, wh);
    }

    static int sim_trunc(int fd, off64_t n) {
        io_op("truncate", fds[fd].id, n);
        crash_point();
        if (fire(trunc_fail)) { errno = EIO; return -1; }
        trace("ftruncate(file %d, %lld)", fds[fd].id, (long long)n);
        fds[fd].written = true;
        return syscall(SYS_ftruncate, fd, n);
    }

    static int sim_sync(int fd) {
        io_op("sync", fds[fd].id);
        crash_point();
        if (fire(sync_fail)) { errno = EIO; return -1; }
        return 0;
    }

    static int stat_gate(const char* path) {
        io_op("stat", path ? hash_path(path) : 0);
        if (pending* p = fire(stat_fail)) { static const int e[] = {EACCES, EIO, ENOMEM, EACCES}; errno = e[p->var & 3]; return -1; }
        return 0;
    }

    // ---- stdio --------------------------------------------------------------------------
    struct cookie { int fd; bool append; };
    static cookie cookies[NFD];

    static ssize_t ck_read(void* c, char* b, size_t n) { return sim_read(((cookie*)c)->fd, b, n, false); }
    static ssize_t ck_write(void* c, const char* b, size_t n) {
        // the C library wants 0 on error
        size_t o = 0;
        while (o < n) {
            ssize_t r = sim_write(((cookie*)c)->fd, b+o, n-o, false);
            if (r < 0) return o ? ssize_t(o) : 0;
            o += r; // (the C library also goes on after a partial write)
        }
        return o;
    }
    static int ck_seek(void* c, off64_t* o, int wh) {
        off64_t r = sim_seek(((cookie*)c)->fd, *o, wh, false);
        if (r < 0) return -1;
        *o = r;
        return 0;
    }
    static int ck_close(void* c) {
        int fd = ((cookie*)c)->fd;
        for (auto& e : files) if (e.f && e.fd == fd) e.f = nullptr;
        return sim_close(fd, false);
    }

    static uint64_t nlost = 0;
    uint64_t lost_flush() { return nlost; }

    static FILE* sim_fopen(const char* path, const char* mode) {
        int fl = 0; bool plus = strchr(mode, '+');
        switch (mode[0]) {
            case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
            case 'w': fl = (plus ? O_RDWR : O_WRONLY)|O_CREAT|O_TRUNC; break;
            case 'a': fl = (plus ? O_RDWR : O_WRONLY)|O_CREAT|O_APPEND; break;
            default: errno = EINVAL; return nullptr;
        }
        if (strchr(mode, 'x')) fl |= O_EXCL;
        int fd = sim_open(path, fl, 0666, true);
        if (fd < 0) return nullptr;
        cookies[fd].fd = fd;
        cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
        char m[3] = {mode[0], 0, 0}; if (plus) m[1] = '+';
        FILE* f = fopencookie(&cookies[fd], m, io);
        if (!f) die("fopencookie");
        for (auto& e : files) if (!e.f) { e.f = f; e.fd = fd; return f; }
        die("too many streams"); return nullptr;
    }

    // ---- directories --------------------------------------------------------------------
    struct simdir { bool closed; int n, pos; int fd; dirent ents[64]; unsigned char type[64]; bool hide; pending* err; int err_at; };
    enum { NDIR = 2048 };
    static simdir* dirs[NDIR];

    static simdir* as_dir(DIR* d) { for (auto* x : dirs) if (x && (DIR*)x == d) return x; return nullptr; }

    struct linux_dirent64 { uint64_t ino; int64_t off; unsigned short reclen; unsigned char type; char name[]; };

    static DIR* sim_opendir(const char* path) {
        io_op("opendir", hash_path(path));
        if (pending* p = fire(dir_fail)) {
            static const int e[] = {EACCES, EMFILE, ENFILE, ENOMEM};
            errno = e[p->var & 3];
            return nullptr;
        }
        int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY|O_DIRECTORY|O_CLOEXEC);
        if (fd < 0) return nullptr;
        int slot = -1; for (int i = 0; i < NDIR; ++i) if (!dirs[i]) { slot = i; break; }
        if (slot < 0) die("too many directories");
        simdir* d = (simdir*)calloc(1, sizeof(simdir));
        d->fd = fd;
        char b[32768]; long n;
        while ((n = syscall(SYS_getdents64, fd, b, sizeof b)) > 0) {
            for (long o = 0; o < n;) {
                linux_dirent64* p = (linux_dirent64*)(b+o);
                if (d->n < 64) {
                    dirent& e = d->ents[d->n];
                    e.d_ino = 1; e.d_reclen = sizeof(dirent); e.d_type = p->type;
                    strncpy(e.d_name, p->name, sizeof e.d_name-1);
                    ++d->n;
                }
                o += p->reclen;
            }
        }
        // the order is ours: sorted, or shuffled
        for (int i = 0; i < d->n; ++i) for (int j = i+1; j < d->n; ++j) {
            if (strcmp(d->ents[i].d_name, d->ents[j].d_name) > 0) { dirent t = d->ents[i]; d->ents[i] = d->ents[j]; d->ents[j] = t; }
        }
        if (fire(readdir_order)) {
            for (int i = d->n-1; i > 0; --i) { int j = fdraw(i+1); dirent t = d->ents[i]; d->ents[i] = d->ents[j]; d->ents[j] = t; }
        }
        if (fire(no_dtype)) for (int i = 0; i < d->n; ++i) d->ents[i].d_type = DT_UNKNOWN;
        for (int i = 0; i < d->n; ++i) d->ents[i].d_off = i+1;
        dirs[slot] = d;
        ++nopen;
        trace("opendir(\"%s\"): %d entries", path, d->n);
        return (DIR*)d;
    }
}

    void io_begin_process() {
        using namespace disk;
        memset(fds, 0, sizeof fds); memset(files, 0, sizeof files); memset(dirs, 0, sizeof dirs);
        nopen = 0; next_id = 0; armed = false; npend = 0; capacity = real_capacity = -1;
    }
}

using namespace sim;
using namespace sim::disk;

template<typename F> static F next_sym(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) die("cannot find %s", n);
    return (F)p;
}

extern "C" {
    // Only observed: which buffers could not be flushed explicitly
    int fflush(FILE* f) {
        static int (*real)(FILE*) = (int(*)(FILE*))dlsym(RTLD_NEXT, "fflush");
        int r = real(f);
        if (r != 0 && f) for (auto& e : files) if (e.f == f) { ++nlost; trace("fflush() fails"); }
        return r;
    }

    // ---- file descriptors
    int open(const char* p, int fl, ...) {
        mode_t m = 0; if (fl & (O_CREAT|O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
        if (watched() && in_root(p)) return sim_open(p, fl, m, false);
        return syscall(SYS_openat, AT_FDCWD, p, fl, m);
    }
    int open64(const char* p, int fl, ...) {
        mode_t m = 0; if (fl & (O_CREAT|O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
        if (watched() && in_root(p)) return sim_open(p, fl, m, false);
        return syscall(SYS_openat, AT_FDCWD, p, fl, m);
    }
    int creat(const char* p, mode_t m) { return open(p, O_WRONLY|O_CREAT|O_TRUNC, m); }
    int creat64(const char* p, mode_t m) { return open(p, O_WRONLY|O_CREAT|O_TRUNC, m); }
    int close(int fd) {
        if (watched() && is_sim_fd(fd)) return sim_close(fd);
        if (is_sim_fd(fd)) { fds[fd].used = false; --nopen; }
        return syscall(SYS_close, fd);
    }
    ssize_t read(int fd, void* b, size_t n) { if (watched() && is_sim_fd(fd)) return sim_read(fd, b, n); return syscall(SYS_read, fd, b, n); }
    ssize_t write(int fd, const void* b, size_t n) { if (watched() && is_sim_fd(fd)) return sim_write(fd, b, n); return syscall(SYS_write, fd, b, n); }
    ssize_t pread(int fd, void* b, size_t n, off_t o) {
        if (watched() && is_sim_fd(fd)) { io_op("pread", fds[fd].id, o); if (fire(read_eio)) { errno = EIO; return -1; } }
        return syscall(SYS_pread64, fd, b, n, o);
    }
    ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
    ssize_t readv(int fd, const iovec* v, int n) {
        if (!(watched() && is_sim_fd(fd))) return syscall(SYS_readv, fd, v, n);
        ssize_t tot = 0;
        for (int i = 0; i < n; ++i) {
            if (!v[i].iov_len) continue;
            ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return tot ? tot : -1;
            tot += r; if (size_t(r) < v[i].iov_len) break;
        }
        return tot;
    }
    ssize_t writev(int fd, const iovec* v, int n) {
        if (!(watched() && is_sim_fd(fd))) return syscall(SYS_writev, fd, v, n);
        ssize_t tot = 0;
        for (int i = 0; i < n; ++i) {
            if (!v[i].iov_len) continue;
            ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return tot ? tot : -1;
            tot += r; if (size_t(r) < v[i].iov_len) break;
        }
        return tot;
    }
    off_t lseek(int fd, off_t o, int w) { if (watched() && is_sim_fd(fd)) return sim_seek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
    off64_t lseek64(int fd, off64_t o, int w) { if (watched() && is_sim_fd(fd)) return sim_seek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
    int ftruncate(int fd, off_t n) { if (watched() && is_sim_fd(fd)) return sim_trunc(fd, n); return syscall(SYS_ftruncate, fd, n); }
    int ftruncate64(int fd, off64_t n) { if (watched() && is_sim_fd(fd)) return sim_trunc(fd, n); return syscall(SYS_ftruncate, fd, n); }
    int fsync(int fd) { if (watched() && is_sim_fd(fd)) return sim_sync(fd); return syscall(SYS_fsync, fd); }
    int fdatasync(int fd) { if (watched() && is_sim_fd(fd)) return sim_sync(fd); return syscall(SYS_fdatasync, fd); }
    int dup(int fd) { if (watched() && is_sim_fd(fd)) die("dup of a simulated file"); return syscall(SYS_dup, fd); }

    // ---- stdio
    FILE* fopen(const char* p, const char* m) {
        if (watched() && in_root(p)) return sim_fopen(p, m);
        typedef FILE* (*fn)(const char*, const char*); static fn f = next_sym<fn>("fopen");
        return f(p, m);
    }
    FILE* fopen64(const char* p, const char* m) {
        if (watched() && in_root(p)) return sim_fopen(p, m);
        typedef FILE* (*fn)(const char*, const char*); static fn f = next_sym<fn>("fopen64");
        return f(p, m);
    }
    int fileno(FILE* f) {
        for (auto& e : files) if (e.f && e.f == f) return e.fd;
        typedef int (*fn)(FILE*); static fn r = next_sym<fn>("fileno");
        return r(f);
    }
    int fileno_unlocked(FILE* f) { return fileno(f); }

    // ---- status
    int stat(const char* p, struct stat* s) {
        if (watched() && in_root(p) && stat_gate(p) < 0) return -1;
        return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
    }
    int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
    int lstat(const char* p, struct stat* s) {
        if (watched() && in_root(p) && stat_gate(p) < 0) return -1;
        return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW);
    }
    int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
    int fstatat(int d, const char* p, struct stat* s, int fl) {
        if (watched() && d == AT_FDCWD && in_root(p) && stat_gate(p) < 0) return -1;
        return syscall(SYS_newfstatat, d, p, s, fl);
    }
    int fstatat64(int d, const char* p, struct stat64* s, int fl) { return fstatat(d, p, (struct stat*)s, fl); }
    int access(const char* p, int m) {
        if (watched() && in_root(p) && stat_gate(p) < 0) return -1;
        return syscall(SYS_faccessat, AT_FDCWD, p, m);
    }

    // ---- name space
    int mkdir(const char* p, mode_t m) {
        if (watched() && in_root(p)) {
            io_op("mkdir", hash_path(p)); crash_point();
            struct stat st;
            if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW) != 0) if (pending* q = fire(mkdir_fail)) { static const int e[] = {EACCES, ENOSPC, EROFS, EIO}; errno = e[q->var & 3]; return -1; }
            trace("mkdir(\"%s\")", p);
        }
        return syscall(SYS_mkdirat, AT_FDCWD, p, m);
    }
    static bool there(const char* p) { struct stat s; return syscall(SYS_newfstatat, AT_FDCWD, p, &s, AT_SYMLINK_NOFOLLOW) == 0; }
    static int rm_gate(const char* p) {
        io_op("remove", hash_path(p)); crash_point();
        if (there(p)) if (pending* q = fire(remove_fail)) { static const int e[] = {EACCES, EBUSY, EROFS, EIO}; errno = e[q->var & 3]; return -1; }
        trace("remove(\"%s\")", p);
        return 0;
    }
    int unlink(const char* p) {
        if (watched() && !in_root(p)) die("unlink(%s) outside of the scratch directory", p);
        if (watched() && rm_gate(p) < 0) return -1;
        return syscall(SYS_unlinkat, AT_FDCWD, p, 0);
    }
    int rmdir(const char* p) {
        if (watched() && !in_root(p)) die("rmdir(%s) outside of the scratch directory", p);
        if (watched() && rm_gate(p) < 0) return -1;
        return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
    }
    int remove(const char* p) {
        if (watched() && !in_root(p)) die("remove(%s) outside of the scratch directory", p);
        if (watched() && rm_gate(p) < 0) return -1;
        int r = syscall(SYS_unlinkat, AT_FDCWD, p, 0);
        if (r < 0 && (errno == EISDIR || errno == EPERM)) r = syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
        return r;
    }
    int rename(const char* a, const char* b) {
        if (watched()) {
            if (!in_root(a) || !in_root(b)) die("rename outside of the scratch directory");
            io_op("rename", hash_path(a), hash_path(b)); crash_point();
            if (there(a)) if (pending* q = fire(rename_fail)) { static const int e[] = {EACCES, EXDEV, EROFS, EIO}; errno = e[q->var & 3]; return -1; }
            trace("rename(\"%s\", \"%s\")", a, b);
        }
        return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
    }

    // ---- directories
    DIR* opendir(const char* p) {
        if (watched() && in_root(p)) return sim_opendir(p);
        typedef DIR* (*fn)(const char*); static fn f = next_sym<fn>("opendir");
        return f(p);
    }
    struct dirent* readdir(DIR* h) {
        if (g.active) for (auto* x : dirs) if ((DIR*)x == h && x) {
            if (x->closed) violation("closed-directory-used", "readdir() on a directory handle that was closed");
            if (watched()) io_op("readdir");
            if (x->pos >= x->n) return nullptr;
            if (watched() && fire(dir_fail)) { errno = EIO; return nullptr; }
            return &x->ents[x->pos++];
        }
        typedef struct dirent* (*fn)(DIR*); static fn f = next_sym<fn>("readdir");
        return f(h);
    }
    struct dirent64* readdir64(DIR* h) { return (struct dirent64*)readdir(h); }
    void rewinddir(DIR* h) {
        if (g.active) if (auto* x = as_dir(h)) {
            if (x->closed) violation("closed-directory-used", "rewinddir() on a directory handle that was closed");
            x->pos = 0; return;
        }
        typedef void (*fn)(DIR*); static fn f = next_sym<fn>("rewinddir");
        f(h);
    }
    int closedir(DIR* h) {
        if (g.active) if (auto* x = as_dir(h)) {
            if (x->closed) violation("directory-closed-twice", "closedir() called twice on the same directory handle");
            x->closed = true; --nopen;
            syscall(SYS_close, x->fd);
            if (watched()) io_op("closedir");
            return 0;
        }
        typedef int (*fn)(DIR*); static fn f = next_sym<fn>("closedir");
        return f(h);
    }

    // ---- other processes: never in a simulation
    int system(const char* c) {
        if (!g.active) return -1;
        trace("system(\"%s\") refused", c);
        return 0x7f00;
    }
    FILE* popen(const char*, const char*) { errno = ENOSYS; return nullptr; }
}
