/* LD_PRELOAD seam for the deterministic simulator.
 *
 *  heap : operator new/delete are served from a fixed-address arena whose layout, reuse order, fill pattern and
 *         failures are decided by a seeded PRNG.
 *  clock: time/gettimeofday/clock_gettime return a virtual clock while it is enabled.
 *  disk : open/fopen/write/writev/close/mkdir/unlink/rename/rmdir below one root directory are numbered; a script
 *         decides which of them fail, are short, are interrupted, or at which one the process "crashes".
 * Everything is off until the simulator calls shim_*().
 */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/syscall.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

extern "C" void __libc_free(void *);
/* ---------------------------------------------------------------- prng */
static inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

/* ---------------------------------------------------------------- heap */
enum { MODE_OFF = 0, MODE_UP = 1, MODE_DOWN = 2, MODE_RANDOM = 3, MODE_INTERLEAVE = 4 };
enum { REUSE_LIFO = 0, REUSE_FIFO = 1, REUSE_NEVER = 2, REUSE_RANDOM = 3 };

static const uintptr_t BASE = 0x100000000000ULL;
static const size_t PAGE = 1 << 14;             /* 16 KiB */
static const size_t LIMIT = (size_t)3 << 29;      /* beyond 1.5 GiB the arena is left and malloc() takes over */
static const size_t NPAGES = 1 << 18;           /* 4 GiB of address space, not reserved */
static const size_t NCLASS = 129;               /* 16-byte classes up to 2048 */
static const size_t MAXSMALL = 2048;

struct Vec { uint32_t *p; size_t n, cap; size_t head; };   /* slot ids: page*1024+slot (16k/16 = 1024) */
static struct {
    size_t pages; int mode, reuse, fill; uint64_t rng; bool ready;
    Vec fresh[NCLASS], freed[NCLASS];
    uint16_t *pclass;      /* page -> class+1, 0xffff = large head, 0xfffe = large body */
    uint32_t *plarge;      /* large head: pages */
    uint8_t *state;        /* per 16-byte granule: 1 live 2 freed (small, first granule of a slot) */
    size_t up, down; long nallocs, nfrees, failat, failed, live;
    long bad; char badmsg[200];
    bool trace; uint64_t hash;
} H;

static void *sysalloc(size_t n) {
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(97);
    return p;
}
static void vpush(Vec &v, uint32_t x) {
    if (v.n == v.cap) {
        size_t c = v.cap ? v.cap * 2 : 1024;
        uint32_t *q = (uint32_t *)sysalloc(c * sizeof(uint32_t));
        if (v.n) memcpy(q, v.p, v.n * sizeof(uint32_t));
        if (v.cap) munmap(v.p, v.cap * sizeof(uint32_t));
        v.p = q; v.cap = c;
    }
    v.p[v.n++] = x;
}
static bool in_arena(const void *p) { uintptr_t a = (uintptr_t)p; return a >= BASE && a < BASE + NPAGES * PAGE; }

static void heap_bad(const char *what, void *p) {
    H.bad++;
    if (H.bad == 1) snprintf(H.badmsg, sizeof H.badmsg, "%s at arena+0x%lx", what, (unsigned long)((uintptr_t)p - BASE));
}
EXPORT int shim_heap_init(int mode, int reuse, int fill, uint64_t seed) {
    if (!H.ready) {
        void *p = mmap((void *)BASE, NPAGES * PAGE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void *)BASE) return -1;
        H.pclass = (uint16_t *)sysalloc(NPAGES * 2);
        H.plarge = (uint32_t *)sysalloc(NPAGES * 4);
        H.state = (uint8_t *)sysalloc(NPAGES * 1024);
        H.up = 1; H.down = NPAGES - 1;
        H.ready = true;
    }
    H.rng = seed; H.mode = mode; H.reuse = reuse; H.fill = fill;
    H.hash = 1469598103934665603ULL;
    return 0;
}
EXPORT void shim_heap_failat(long n) { H.failat = n > 0 ? H.nallocs + n : 0; H.failed = 0; }
EXPORT long shim_heap_failed() { return H.failed; }
EXPORT long shim_heap_allocs() { return H.nallocs; }
EXPORT long shim_heap_live() { return H.live; }
EXPORT long shim_heap_bad(char *buf, int n) { if (buf && n > 0) { strncpy(buf, H.badmsg, n - 1); buf[n - 1] = 0; } return H.bad; }
EXPORT uint64_t shim_heap_hash() { return H.hash; }

static size_t newpage(size_t npages) {
    size_t pg;
    if ((H.pages + npages) * PAGE > LIMIT) return 0;
    if (H.mode == MODE_DOWN) { H.down -= npages; pg = H.down; }
    else if (H.mode == MODE_UP) { pg = H.up; H.up += npages; }
    else {
        for (int k = 0;; k++) {
            pg = 1024 + splitmix(H.rng) % (NPAGES - 2048 - npages);
            bool ok = true;
            for (size_t i = 0; i < npages; i++) if (H.pclass[pg + i]) { ok = false; break; }
            if (ok) break;
            if (k > 1000) return 0;
        }
    }
    H.pages += npages;
    return pg;
}
static void *heap_alloc(size_t n) {
    if (n == 0) n = 1;
    if (n > MAXSMALL) {
        size_t np = (n + PAGE - 1) / PAGE, pg = newpage(np);
        if (!pg) return malloc(n);
        H.pclass[pg] = 0xffff; H.plarge[pg] = np;
        for (size_t i = 1; i < np; i++) H.pclass[pg + i] = 0xfffe;
        void *p = (void *)(BASE + pg * PAGE);
        if (H.fill >= 0) memset(p, H.fill, n);
        return p;
    }
    size_t c = (n + 15) / 16, sz = c * 16, per = PAGE / sz;
    Vec &fr = H.fresh[c], &fd = H.freed[c];
    uint32_t id = 0; bool got = false;
    if (fd.n > fd.head) {
        size_t cnt = fd.n - fd.head;
        if (H.reuse == REUSE_LIFO) { id = fd.p[--fd.n]; got = true; }
        else if (H.reuse == REUSE_FIFO && cnt > 64) { id = fd.p[fd.head++]; got = true; }
        else if (H.reuse == REUSE_RANDOM && (splitmix(H.rng) & 3)) {
            size_t k = fd.head + splitmix(H.rng) % cnt; id = fd.p[k]; fd.p[k] = fd.p[--fd.n]; got = true;
        }
        if (fd.head == fd.n) fd.head = fd.n = 0;
    }
    if (!got) {
        if (fr.n == 0) {
            int k = H.mode == MODE_RANDOM ? 4 : 1;
            while (k--) {
                size_t pg = newpage(1);
                if (!pg) { if (fr.n) break; return malloc(n); }
                H.pclass[pg] = (uint16_t)c;
                for (size_t i = 0; i < per; i++) {
                    size_t s = H.mode == MODE_UP ? per - 1 - i : i;     /* popped from the end */
                    vpush(fr, (uint32_t)(pg * 1024 + s));
                }
            }
        }
        if (H.mode == MODE_RANDOM) {
            size_t k = splitmix(H.rng) % fr.n; id = fr.p[k]; fr.p[k] = fr.p[--fr.n];
        } else if (H.mode == MODE_INTERLEAVE && fr.n > 1 && (splitmix(H.rng) & 1)) {
            id = fr.p[0]; fr.p[0] = fr.p[--fr.n];
        } else id = fr.p[--fr.n];
    }
    size_t pg = id >> 10, slot = id & 1023;
    char *p = (char *)(BASE + pg * PAGE + slot * sz);
    uint8_t &st = H.state[((uintptr_t)p - BASE) >> 4];
    if (st == 2 && H.fill >= 0) {           /* the freed block must still hold the poison */
        for (size_t i = 0; i < sz; i++) if ((uint8_t)p[i] != 0xDD) { heap_bad("write after free", p); break; }
    }
    st = 1;
    if (H.fill >= 0) memset(p, H.fill, sz);
    return p;
}
static void heap_free(void *p) {
    uintptr_t off = (uintptr_t)p - BASE; size_t pg = off / PAGE;
    uint16_t c = H.pclass[pg];
    if (c == 0xffff) {
        if (off % PAGE) { heap_bad("delete of an interior pointer", p); return; }
        size_t np = H.plarge[pg];
        if (H.state[off >> 4] == 2) { heap_bad("double delete", p); return; }
        H.state[off >> 4] = 2;
        if (H.fill >= 0) memset(p, 0xDD, np * PAGE > 65536 ? 65536 : np * PAGE);
        return;                              /* large blocks are not reused */
    }
    if (c == 0 || c == 0xfffe) { heap_bad("delete of a pointer that was never allocated", p); return; }
    size_t sz = c * 16, in = off % PAGE;
    if (in % sz) { heap_bad("delete of an interior pointer", p); return; }
    uint8_t &st = H.state[off >> 4];
    if (st != 1) { heap_bad(st == 2 ? "double delete" : "delete of a pointer that was never allocated", p); return; }
    st = 2;
    if (H.fill >= 0) memset(p, 0xDD, sz);
    if (H.reuse != REUSE_NEVER) vpush(H.freed[c], (uint32_t)(pg * 1024 + in / sz));
}
static inline void *op_new(size_t n, bool nothrow) {
    if (H.mode) {
        long k = ++H.nallocs;
        if (H.failat && k == H.failat) { H.failed++; if (nothrow) return 0; throw std::bad_alloc(); }
        H.live++;
        H.hash = (H.hash ^ n) * 1099511628211ULL;
        return heap_alloc(n);
    }
    void *p = malloc(n ? n : 1);
    if (!p) { if (nothrow) return 0; throw std::bad_alloc(); }
    return p;
}
static inline void op_del(void *p) {
    if (!p) return;
    if (in_arena(p)) { H.nfrees++; H.live--; heap_free(p); }
    else __libc_free(p);
}
/* PyObject_Free() ends here for objects that the wrapper made with operator new */
EXPORT void free(void *p) noexcept { if (p && in_arena(p)) op_del(p); else __libc_free(p); }
void *operator new(size_t n) { return op_new(n, false); }
void *operator new[](size_t n) { return op_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, true); }
void operator delete(void *p) noexcept { op_del(p); }
void operator delete[](void *p) noexcept { op_del(p); }
void operator delete(void *p, size_t) noexcept { op_del(p); }
void operator delete[](void *p, size_t) noexcept { op_del(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_del(p); }

/* ---------------------------------------------------------------- clock */
static bool c_on; static int64_t c_ns, c_step;
EXPORT void shim_clock_set(int64_t ns, int64_t step) { c_ns = ns; c_step = step; c_on = true; }
EXPORT void shim_clock_off() { c_on = false; }
EXPORT int64_t shim_clock_get() { return c_ns; }
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (c_on && ts && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW)) {
        c_ns += c_step; ts->tv_sec = c_ns / 1000000000; ts->tv_nsec = c_ns % 1000000000; return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
EXPORT int gettimeofday(struct timeval *tv, void *) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
EXPORT time_t time(time_t *t) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

/* ---------------------------------------------------------------- disk */
enum { OP_OPEN = 0, OP_WRITE = 1, OP_CLOSE = 2, OP_MKDIR = 3, OP_UNLINK = 4, OP_RENAME = 5, OP_FSYNC = 6, OP_READ = 7, OP_OPENR = 8, NOPS = 9 };
enum { F_NONE = 0, F_ERR = 1, F_SHORT = 2, F_EINTR = 3, F_CRASH = 4, F_TORN = 5, F_LOST = 6 };
struct Fault { long at; int op; int kind; int err; long arg; int sticky; long fired; };
static struct {
    bool on; char root[512]; size_t rl; long n; long per[NOPS];
    Fault f[64]; int nf; bool fd[4096]; int crashed_code; int logfd; long depth;
    char protect[512]; long escapes; char escape_path[512];
} D;
static void d_log(const char *what, const char *path, long a, long r) {
    if (D.logfd <= 0) return;
    char b[700]; int k = snprintf(b, sizeof b, "%ld %s %s %ld %ld\n", D.n, what, path ? path : "-", a, r);
    syscall(SYS_write, D.logfd, b, k);
}
static bool under(const char *p) {
    if (!D.on || !p) return false;
    if (p[0] != '/') {
        char cwd[512]; if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return false;
        return strncmp(cwd, D.root, D.rl) == 0 && (cwd[D.rl] == 0 || cwd[D.rl] == '/');
    }
    return strncmp(p, D.root, D.rl) == 0;
}
EXPORT void shim_disk_init(const char *root, int logfd) {
    memset(&D, 0, sizeof D); strncpy(D.root, root, sizeof D.root - 1); D.rl = strlen(D.root); D.logfd = logfd; D.on = true;
}
EXPORT void shim_disk_on(int on) { D.on = on; }
/* at: 1-based index counted over operations of kind op (op<0: over all). sticky: every later one too */
EXPORT int shim_disk_fault(long at, int op, int kind, int err, long arg, int sticky) {
    if (D.nf >= 64) return -1;
    Fault &f = D.f[D.nf]; f.at = at; f.op = op; f.kind = kind; f.err = err; f.arg = arg; f.sticky = sticky; f.fired = 0;
    return D.nf++;
}
EXPORT void shim_disk_clear() { D.nf = 0; }
EXPORT long shim_disk_fired(int i) { return D.f[i].fired; }
EXPORT long shim_disk_ops(int op) { return op < 0 ? D.n : D.per[op]; }
static Fault *hit(int op) {
    D.n++; D.per[op]++;
    for (int i = 0; i < D.nf; i++) {
        Fault &f = D.f[i]; if (f.op >= 0 && f.op != op) continue;
        long k = f.op < 0 ? D.n : D.per[op];
        if (k == f.at || (f.sticky && k >= f.at)) { f.fired++; return &f; }
    }
    return 0;
}
template <class T> static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
#define CRASH(code) do { d_log("CRASH", 0, 0, 0); syscall(SYS_exit_group, 99); } while (0)
static bool writing(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); }

static int sim_open(const char *p, int flags, bool &handled) {
    handled = false;
    if (!under(p)) return 0;
    int op = writing(flags) ? OP_OPEN : OP_OPENR;
    Fault *f = hit(op);
    d_log(op == OP_OPEN ? "open" : "openr", p, flags, f ? f->kind : 0);
    if (f) {
        if (f->kind == F_CRASH) CRASH();
        if (f->kind == F_ERR || f->kind == F_EINTR) { handled = true; errno = f->kind == F_EINTR ? EINTR : f->err; return -1; }
    }
    return 0;
}
static void track(int fd, const char *p) { if (fd >= 0 && fd < 4096) D.fd[fd] = under(p); }
static int open_common(const char *p, int flags, mode_t m) {
    bool h; int r = sim_open(p, flags, h); if (h) return r;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, flags, m); if (D.on) track(fd, p); return fd;
}
EXPORT int open(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return open_common(p, flags, m); }
EXPORT int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return open_common(p, flags, m); }
EXPORT int openat(int d, const char *p, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
    if (d == AT_FDCWD || (p && p[0] == '/')) return open_common(p, flags, m);
    return (int)syscall(SYS_openat, d, p, flags, m);
}
EXPORT int openat64(int d, const char *p, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a);
    if (d == AT_FDCWD || (p && p[0] == '/')) return open_common(p, flags, m);
    return (int)syscall(SYS_openat, d, p, flags, m);
}
typedef FILE *(*fopen_t)(const char *, const char *);
static FILE *fopen_common(const char *p, const char *mode, const char *name) {
    fopen_t r = real<fopen_t>(name);
    bool w = mode && (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'));
    bool h; sim_open(p, w ? (O_WRONLY | O_CREAT) : O_RDONLY, h); if (h) return 0;
    FILE *f = r(p, mode); if (f && D.on) track(fileno(f), p); return f;
}
EXPORT FILE *fopen(const char *p, const char *m) { return fopen_common(p, m, "fopen"); }
EXPORT FILE *fopen64(const char *p, const char *m) { return fopen_common(p, m, "fopen64"); }

static ssize_t sim_write(int fd, const struct iovec *v, int nv, bool &handled) {
    handled = false;
    if (!D.on || fd < 0 || fd >= 4096 || !D.fd[fd]) return 0;
    size_t tot = 0; for (int i = 0; i < nv; i++) tot += v[i].iov_len;
    Fault *f = hit(OP_WRITE);
    d_log("write", 0, fd, f ? f->kind : 0);
    if (!f) return 0;
    if (f->kind == F_ERR) { handled = true; errno = f->err; return -1; }
    if (f->kind == F_EINTR) { handled = true; errno = EINTR; return -1; }
    if (f->kind == F_LOST) { handled = true; return (ssize_t)tot; }
    if (f->kind == F_CRASH) CRASH();
    if (f->kind == F_SHORT || f->kind == F_TORN) {
        size_t want = tot ? (size_t)f->arg % tot : 0; if (f->kind == F_SHORT && want == 0) want = tot ? 1 : 0;
        size_t left = want; ssize_t done = 0;
        for (int i = 0; i < nv && left; i++) {
            size_t k = v[i].iov_len < left ? v[i].iov_len : left;
            ssize_t r = syscall(SYS_write, fd, v[i].iov_base, k); if (r < 0) break;
            done += r; left -= k;
        }
        if (f->kind == F_TORN) CRASH();
        handled = true; return done;
    }
    return 0;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    struct iovec v = { (void *)b, n }; bool h; ssize_t r = sim_write(fd, &v, 1, h); if (h) return r;
    return syscall(SYS_write, fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int nv) {
    bool h; ssize_t r = sim_write(fd, v, nv, h); if (h) return r;
    return syscall(SYS_writev, fd, v, nv);
}
EXPORT int close(int fd) {
    if (D.on && fd >= 0 && fd < 4096 && D.fd[fd]) {
        D.fd[fd] = false;
        Fault *f = hit(OP_CLOSE); d_log("close", 0, fd, f ? f->kind : 0);
        if (f && f->kind == F_CRASH) CRASH();
        if (f && f->kind == F_ERR) { syscall(SYS_close, fd); errno = f->err; return -1; }
    }
    return (int)syscall(SYS_close, fd);
}
/* fclose() does not call close() through the PLT: count it as the close of a tracked stream */
EXPORT int fclose(FILE *fp) {
    typedef int (*fn)(FILE *); static fn r; if (!r) r = real<fn>("fclose");
    int fd = fp ? fileno(fp) : -1;
    if (D.on && fd >= 0 && fd < 4096 && D.fd[fd]) {
        D.fd[fd] = false;
        Fault *f = hit(OP_CLOSE); d_log("fclose", 0, fd, f ? f->kind : 0);
        if (f && f->kind == F_CRASH) CRASH();
        if (f && f->kind == F_ERR) { r(fp); errno = f->err; return EOF; }
    }
    return r(fp);
}
static int meta(int op, const char *p, const char *nm, bool &handled) {
    handled = false; if (!under(p)) return 0;
    Fault *f = hit(op); d_log(nm, p, 0, f ? f->kind : 0);
    if (f) {
        if (f->kind == F_CRASH) CRASH();
        if (f->kind == F_ERR) { handled = true; errno = f->err; return -1; }
    }
    return 0;
}
EXPORT int mkdir(const char *p, mode_t m) noexcept { bool h; int r = meta(OP_MKDIR, p, "mkdir", h); if (h) return r; return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); }
EXPORT int unlink(const char *p) noexcept { bool h; int r = meta(OP_UNLINK, p, "unlink", h); if (h) return r; return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
EXPORT int rmdir(const char *p) noexcept { bool h; int r = meta(OP_UNLINK, p, "rmdir", h); if (h) return r; return (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int rename(const char *a, const char *b) noexcept { bool h; int r = meta(OP_RENAME, b, "rename", h); if (h) return r; return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int fsync(int fd) {
    if (D.on && fd >= 0 && fd < 4096 && D.fd[fd]) { Fault *f = hit(OP_FSYNC); if (f && f->kind == F_ERR) { errno = f->err; return -1; } if (f && f->kind == F_CRASH) CRASH(); }
    return (int)syscall(SYS_fsync, fd);
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
    if (D.on && fd >= 0 && fd < 4096 && D.fd[fd]) {
        Fault *f = hit(OP_READ); d_log("read", 0, fd, f ? f->kind : 0);
        if (f) {
            if (f->kind == F_ERR) { errno = f->err; return -1; }
            if (f->kind == F_EINTR) { errno = EINTR; return -1; }
            if (f->kind == F_CRASH) CRASH();
            if (f->kind == F_SHORT && n > 1) n = 1 + (size_t)f->arg % (n - 1);
        }
    }
    return syscall(SYS_read, fd, b, n);
}
