/* The simulated kernel: an LD_PRELOAD library between an unmodified program and libc.
 *
 * A plan in a shared file (SIMOS_PLAN) decides every fault, every source of randomness and the order of
 * directory listings; the same file carries back what was called and what was done to it.  Nothing here
 * depends on time, addresses or process ids, so one plan is one execution. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { C_OPENR, C_OPENW, C_READ, C_WOUT, C_WFILE, C_STAT, C_MKDIR, C_RMDIR, C_UNLINK, C_OPENDIR, C_READDIR,
       C_CLOSE, C_SYNC, C_RENAME, C_WERR, C_FSTAT, C_ALLOC, C_CHMOD, C_N };
enum { A_NONE, A_SHORT, A_ERR, A_CRASH_BEFORE, A_CRASH_AFTER, A_TORN };
enum { F_TTY = 1 };

struct rule { uint32_t cls, nth, act, arg, sticky, fired; };
#define NRULES 16
#define NLOG 4096
struct plan {
    uint32_t magic, flags;
    uint64_t rnd_seed, bg_seed;
    uint32_t bg_short, bg_eintr;          /* per mille */
    uint32_t max_calls, nrules;
    struct rule rules[NRULES];
    char root[512];
    /* results */
    uint32_t ncalls, nlog, bg_short_fired, bg_eintr_fired, crashed, breaches, overrun, writes_after_error;
    uint32_t count[24];
    char breach[512];
    uint64_t hash;
    struct { uint16_t cls, act; int32_t res; } log[NLOG];
};

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_calloc(size_t, size_t);

static struct plan *P;
static int fds[1024]; /* 0 unknown, 1 read, 2 write, 3 dir */
static char cwd0[512];

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static uint64_t splitmix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static uint64_t rnd_state, bg_state;
static uint64_t rnd(void) { return rnd_state = splitmix(rnd_state); }
static uint64_t bg(void) { return bg_state = splitmix(bg_state); }

static void die(int code) { syscall(SYS_exit_group, code); for (;;) {} }

static void init(void) {
    static int done;
    if (done) return;
    done = 1;
    const char *p = getenv("SIMOS_PLAN");
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) die(97);
    void *m = mmap(0, sizeof(struct plan), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m == MAP_FAILED) die(97);
    struct plan *q = m;
    if (q->magic != 0x51305301) die(97);
    rnd_state = q->rnd_seed;
    bg_state = q->bg_seed;
    if (syscall(SYS_getcwd, cwd0, sizeof cwd0) < 0) cwd0[0] = 0;
    P = q;
}
__attribute__((constructor)) static void ctor(void) { init(); }

static void note(int cls, int act, long res) {
    uint64_t h = P->hash;
    h = splitmix(h ^ (uint64_t)cls);
    h = splitmix(h ^ (uint64_t)act);
    P->hash = splitmix(h ^ (uint64_t)res);
    if (P->nlog < NLOG) {
        P->log[P->nlog].cls = cls;
        P->log[P->nlog].act = act;
        P->log[P->nlog].res = (int32_t)res;
        P->nlog++;
    }
}

/* Decides the fate of one call.  Returns the rule that applies, or NULL. */
static struct rule *fate(int cls) {
    uint32_t n = P->count[cls]++;
    if (cls != C_ALLOC && ++P->ncalls > P->max_calls && P->max_calls) { P->overrun = 1; die(98); }
    for (uint32_t i = 0; i < P->nrules && i < NRULES; i++) {
        struct rule *r = &P->rules[i];
        if (r->cls == (uint32_t)cls && (n == r->nth || (r->sticky && n >= r->nth && n < r->nth + r->sticky))) {
            r->fired++;
            if (r->act == A_CRASH_BEFORE) { P->crashed = 1; note(cls, r->act, 0); die(99); }
            return r;
        }
    }
    return 0;
}
static void after(struct rule *r, int cls) {
    if (r && (r->act == A_CRASH_AFTER || r->act == A_TORN)) { P->crashed = 1; note(cls, r->act, 1); die(99); }
}
/* errno to fail with, or 0 */
static int fails(struct rule *r, int cls) {
    if (r && r->act == A_ERR) {
        note(cls, A_ERR, r->arg);
        if (r->arg == EPIPE && cls == C_WOUT) {
            struct sigaction sa;
            if (sigaction(SIGPIPE, 0, &sa) == 0 && sa.sa_handler == SIG_DFL) raise(SIGPIPE);
        }
        return r->arg;
    }
    return 0;
}
static int bg_eintr(int cls) {
    if (P->bg_eintr && bg() % 1000 < P->bg_eintr) { P->bg_eintr_fired++; note(cls, A_ERR, EINTR); return 1; }
    return 0;
}

/* ------------------------------------------------------------ containment */

static int inside(int dirfd, const char *path) {
    char full[PATH_MAX * 2], base[PATH_MAX], res[PATH_MAX];
    if (!path) return 0;
    if (path[0] == '/') {
        snprintf(full, sizeof full, "%s", path);
    } else {
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0;
        } else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        snprintf(full, sizeof full, "%s/%s", base, path);
    }
    size_t l = strlen(full);
    while (l > 1 && full[l - 1] == '/') full[--l] = 0;
    char *slash = strrchr(full, '/');
    const char *last = slash ? slash + 1 : full;
    if (!strcmp(last, ".") || !strcmp(last, "..")) {
        if (!realpath(full, res)) return 0;
    } else {
        char parent[PATH_MAX];
        size_t pl = slash ? (size_t)(slash - full) : 0;
        if (pl >= sizeof parent) return 0;
        memcpy(parent, full, pl);
        parent[pl] = 0;
        /* a missing parent: the call itself will fail; judge the nearest existing ancestor */
        while (pl && !realpath(parent, res)) {
            char *s = strrchr(parent, '/');
            if (!s) break;
            *s = 0;
            pl = s - parent;
        }
        if (!pl) strcpy(res, "/");
        size_t have = strlen(res), add = strlen(last);
        if (have + add + 2 > sizeof res) return 0;
        res[have] = '/';
        memcpy(res + have + 1, last, add + 1);
    }
    size_t rl = strlen(P->root);
    return strncmp(res, P->root, rl) == 0 && res[rl] == '/';
}
/* A file opened for writing: the last component may be a link. */
static int inside_follow(int dirfd, const char *path) {
    char res[PATH_MAX];
    if (!inside(dirfd, path)) return 0;
    if (dirfd == AT_FDCWD && realpath(path, res)) {
        size_t rl = strlen(P->root);
        return strncmp(res, P->root, rl) == 0 && res[rl] == '/';
    }
    return 1;
}
static int breach(const char *path) {
    P->breaches++;
    if (!P->breach[0]) snprintf(P->breach, sizeof P->breach, "%s", path ? path : "(null)");
    errno = EACCES;
    return -1;
}

/* ------------------------------------------------------------ open, close */

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    init();
    if (!P) return syscall(SYS_openat, dirfd, path, flags, mode);
    if (path && (!strncmp(path, "/proc/", 6) || (!strncmp(path, "/dev/", 5) && strncmp(path, "/dev/shm/", 9)) || !strncmp(path, "/etc/", 5)))
        return syscall(SYS_openat, dirfd, path, flags, mode);
    int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0 && !(flags & O_DIRECTORY);
    int cls = (flags & O_DIRECTORY) ? C_OPENDIR : w ? C_OPENW : C_OPENR;
    if (w && !inside_follow(dirfd, path)) return breach(path);
    struct rule *r = fate(cls);
    int e = fails(r, cls);
    if (e) { errno = e; return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < 1024) fds[fd] = cls == C_OPENDIR ? 3 : w ? 2 : 1;
    int sv = errno;
    note(cls, 0, fd < 0 ? -sv : 0);
    after(r, cls);
    errno = sv;
    return fd;
}
static mode_t mode_arg(int flags, va_list ap) {
    return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
}
#define OPENFN(name, dirfd_decl, dirfd) \
    int name(dirfd_decl const char *path, int flags, ...) { \
        va_list ap; va_start(ap, flags); mode_t m = mode_arg(flags, ap); va_end(ap); \
        return do_open(dirfd, path, flags, m); \
    }
#define COMMA ,
OPENFN(open, , AT_FDCWD)
OPENFN(open64, , AT_FDCWD)
OPENFN(openat, int d COMMA, d)
OPENFN(openat64, int d COMMA, d)
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    init();
    if (P && fd >= 0 && fd < 1024 && fds[fd]) {
        struct rule *r = fate(C_CLOSE);
        fds[fd] = 0;
        int x = syscall(SYS_close, fd);
        note(C_CLOSE, 0, x);
        after(r, C_CLOSE);
        return x;
    }
    return syscall(SYS_close, fd);
}

/* ------------------------------------------------------------ read, write */

/* A partial transfer of `want` of the bytes `b`, moved into the middle of the next character that has several bytes, if any. */
static size_t within_character(const unsigned char *b, size_t n, size_t want) {
    for (size_t i = want; i < n; i++)
        if ((b[i] & 0xC0) == 0x80) return i;
    return want;
}
/* How much of a file there is left to read (for others: `n`). */
static size_t left_to_read(int fd, size_t n) {
    struct stat st;
    off_t at = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    if (at < 0 || syscall(SYS_fstat, fd, &st) || !S_ISREG(st.st_mode) || st.st_size <= at) return n;
    return (size_t)(st.st_size - at) < n ? (size_t)(st.st_size - at) : n;
}
static size_t split_read(int fd, size_t want) {
    unsigned char b[512];
    off_t at = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    ssize_t x = at < 0 ? -1 : syscall(SYS_pread64, fd, b, sizeof b, at + (off_t)want);
    return x <= 0 ? want : want + within_character(b, x, 0);
}

ssize_t read(int fd, void *buf, size_t n) {
    init();
    if (!P || fd < 0 || fd >= 1024 || fds[fd] != 1) return syscall(SYS_read, fd, buf, n);
    struct rule *r = fate(C_READ);
    int e = fails(r, C_READ);
    if (e) { errno = e; return -1; }
    if (!r && bg_eintr(C_READ)) { errno = EINTR; return -1; }
    size_t want = n;
    int act = 0;
    if (r && r->act == A_SHORT && n > 1) { want = 1 + r->arg % left_to_read(fd, n); act = A_SHORT; if (want > 64 && r->arg % 3 == 0) want = 1 + r->arg % 64; if (r->arg % 4 == 1) want = split_read(fd, want); if (want > n) want = n; }
    else if (!r && P->bg_short && n > 1 && bg() % 1000 < P->bg_short) {
        size_t m = left_to_read(fd, n);
        want = 1 + bg() % (bg() % 2 ? m : (m < 16 ? m : 16));
        if (bg() % 4 == 0) want = split_read(fd, want);
        if (want > n) want = n;
        act = A_SHORT;
        P->bg_short_fired++;
    }
    ssize_t x = syscall(SYS_read, fd, buf, want);
    int sv = errno;
    note(C_READ, act, x);
    after(r, C_READ);
    errno = sv;
    return x;
}

static ssize_t do_write(int fd, const void *buf, size_t n) {
    int cls = fd == 1 ? C_WOUT : fd == 2 ? C_WERR : C_WFILE;
    struct rule *r = fate(cls);
    int e = fails(r, cls);
    if (e) { errno = e; return -1; }
    if (!r && bg_eintr(cls)) { errno = EINTR; return -1; }
    size_t want = n;
    int act = 0;
    if (r && (r->act == A_SHORT || r->act == A_TORN) && n > 1) { want = 1 + r->arg % (n - (r->act == A_TORN)); act = r->act; }
    else if (!r && P->bg_short && n > 1 && bg() % 1000 < P->bg_short) {
        want = 1 + bg() % (bg() % 2 ? n : (n < 16 ? n : 16));
        if (bg() % 4 == 0) want = within_character(buf, n, want);
        act = A_SHORT;
        P->bg_short_fired++;
    }
    ssize_t x = syscall(SYS_write, fd, buf, want);
    int sv = errno;
    note(cls, act, x);
    after(r, cls);
    errno = sv;
    return x;
}
static int ours(int fd) { return fd == 1 || fd == 2 || (fd > 2 && fd < 1024 && fds[fd] == 2); }
ssize_t write(int fd, const void *buf, size_t n) {
    init();
    if (!P || !ours(fd)) return syscall(SYS_write, fd, buf, n);
    return do_write(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    init();
    if (!P || !ours(fd)) return syscall(SYS_writev, fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    char *b = n ? mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) : 0;
    size_t at = 0;
    for (int i = 0; i < c; i++) { memcpy(b + at, v[i].iov_base, v[i].iov_len); at += v[i].iov_len; }
    ssize_t x = do_write(fd, b, n);
    int sv = errno;
    if (n) munmap(b, n);
    errno = sv;
    return x;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    init();
    if (!P || !ours(fd)) return syscall(SYS_pwrite64, fd, buf, n, o);
    struct rule *r = fate(C_WFILE);
    int e = fails(r, C_WFILE);
    if (e) { errno = e; return -1; }
    ssize_t x = syscall(SYS_pwrite64, fd, buf, n, o);
    note(C_WFILE, 0, x);
    after(r, C_WFILE);
    return x;
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    init();
    if (!P) return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
    errno = ENOSYS; /* copies go through read and write */
    return -1;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { (void)o; (void)i; (void)off; (void)n; errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    (void)a; (void)ao; (void)b; (void)bo; (void)n; (void)f; errno = ENOSYS; return -1;
}

#define SIMPLE(cls, call) \
    struct rule *r = fate(cls); \
    int e = fails(r, cls); \
    if (e) { errno = e; return -1; } \
    int x = call; \
    int sv = errno; \
    note(cls, 0, x < 0 ? -sv : x); \
    after(r, cls); \
    errno = sv; \
    return x;

int fsync(int fd) { init(); if (!P) return syscall(SYS_fsync, fd); SIMPLE(C_SYNC, 0) }
int fdatasync(int fd) { init(); if (!P) return syscall(SYS_fdatasync, fd); SIMPLE(C_SYNC, 0) }
int ftruncate64(int fd, off64_t n) { init(); if (!P) return syscall(SYS_ftruncate, fd, n); SIMPLE(C_WFILE, (int)syscall(SYS_ftruncate, fd, n)) }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

/* ------------------------------------------------------------ metadata */

int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) {
    init();
    /* the prototype promises non-null pointers, but std probes with null ones */
    const char *volatile pv = p;
    struct statx *volatile bv = b;
    if (!P || !pv || !bv) return syscall(SYS_statx, d, pv, f, m, bv);
    int cls = (p[0] == 0) ? C_FSTAT : C_STAT;
    SIMPLE(cls, (int)syscall(SYS_statx, d, p, f, m, b))
}
#define STATFN(name, realdecl, realcall, cls_) \
    int name realdecl { \
        init(); \
        if (!P) return realcall; \
        SIMPLE(cls_, realcall) \
    }
static int raw_fstatat(int d, const char *p, void *b, int f) { return syscall(SYS_newfstatat, d, p, b, f); }
STATFN(stat64, (const char *restrict p, struct stat64 *restrict b), raw_fstatat(AT_FDCWD, p, b, 0), C_STAT)
STATFN(lstat64, (const char *restrict p, struct stat64 *restrict b), raw_fstatat(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW), C_STAT)
STATFN(fstat64, (int fd, struct stat64 *b), raw_fstatat(fd, "", b, AT_EMPTY_PATH), C_FSTAT)
STATFN(fstatat64, (int d, const char *restrict p, struct stat64 *restrict b, int f), raw_fstatat(d, p, b, f), C_STAT)
STATFN(access, (const char *p, int m), (int)syscall(SYS_faccessat, AT_FDCWD, p, m), C_STAT)
STATFN(faccessat, (int d, const char *p, int m, int f), (int)syscall(SYS_faccessat2, d, p, m, f), C_STAT)

/* ------------------------------------------------------------ namespace changes */

#define MUT(path, dirfd) if (!inside(dirfd, path)) return breach(path);
int mkdir(const char *p, mode_t m) { init(); if (!P) return syscall(SYS_mkdir, p, m); MUT(p, AT_FDCWD) SIMPLE(C_MKDIR, (int)syscall(SYS_mkdir, p, m)) }
int mkdirat(int d, const char *p, mode_t m) { init(); if (!P) return syscall(SYS_mkdirat, d, p, m); MUT(p, d) SIMPLE(C_MKDIR, (int)syscall(SYS_mkdirat, d, p, m)) }
int rmdir(const char *p) { init(); if (!P) return syscall(SYS_rmdir, p); MUT(p, AT_FDCWD) SIMPLE(C_RMDIR, (int)syscall(SYS_rmdir, p)) }
int unlink(const char *p) { init(); if (!P) return syscall(SYS_unlink, p); MUT(p, AT_FDCWD) SIMPLE(C_UNLINK, (int)syscall(SYS_unlink, p)) }
int unlinkat(int d, const char *p, int f) {
    init();
    if (!P) return syscall(SYS_unlinkat, d, p, f);
    MUT(p, d)
    SIMPLE((f & AT_REMOVEDIR) ? C_RMDIR : C_UNLINK, (int)syscall(SYS_unlinkat, d, p, f))
}
int rename(const char *a, const char *b) { init(); if (!P) return syscall(SYS_rename, a, b); MUT(a, AT_FDCWD) MUT(b, AT_FDCWD) SIMPLE(C_RENAME, (int)syscall(SYS_rename, a, b)) }
int renameat(int da, const char *a, int db, const char *b) { init(); if (!P) return syscall(SYS_renameat, da, a, db, b); MUT(a, da) MUT(b, db) SIMPLE(C_RENAME, (int)syscall(SYS_renameat, da, a, db, b)) }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { init(); if (!P) return syscall(SYS_renameat2, da, a, db, b, f); MUT(a, da) MUT(b, db) SIMPLE(C_RENAME, (int)syscall(SYS_renameat2, da, a, db, b, f)) }
int symlink(const char *a, const char *b) { init(); if (!P) return syscall(SYS_symlink, a, b); MUT(b, AT_FDCWD) SIMPLE(C_RENAME, (int)syscall(SYS_symlink, a, b)) }
int symlinkat(const char *a, int d, const char *b) { init(); if (!P) return syscall(SYS_symlinkat, a, d, b); MUT(b, d) SIMPLE(C_RENAME, (int)syscall(SYS_symlinkat, a, d, b)) }
int link(const char *a, const char *b) { init(); if (!P) return syscall(SYS_link, a, b); MUT(b, AT_FDCWD) SIMPLE(C_RENAME, (int)syscall(SYS_link, a, b)) }
int linkat(int da, const char *a, int db, const char *b, int f) { init(); if (!P) return syscall(SYS_linkat, da, a, db, b, f); MUT(b, db) SIMPLE(C_RENAME, (int)syscall(SYS_linkat, da, a, db, b, f)) }
int truncate64(const char *p, off64_t n) { init(); if (!P) return syscall(SYS_truncate, p, n); MUT(p, AT_FDCWD) SIMPLE(C_WFILE, (int)syscall(SYS_truncate, p, n)) }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int chmod(const char *p, mode_t m) { init(); if (!P) return syscall(SYS_chmod, p, m); MUT(p, AT_FDCWD) SIMPLE(C_CHMOD, (int)syscall(SYS_chmod, p, m)) }
int fchmodat(int d, const char *p, mode_t m, int f) { init(); (void)f; if (!P) return syscall(SYS_fchmodat, d, p, m); MUT(p, d) SIMPLE(C_CHMOD, (int)syscall(SYS_fchmodat, d, p, m)) }
int chown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return breach(p); }
int lchown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return breach(p); }
int kill(pid_t p, int s) { init(); if (!P || p == (pid_t)syscall(SYS_getpid) || p == getpid() && (p = syscall(SYS_getpid))) return syscall(SYS_kill, p, s); return breach("kill"); }
int chdir(const char *p) { return syscall(SYS_chdir, p); }

/* ------------------------------------------------------------ directory listings */

struct listing { DIR *d; int n, at, own; struct dirent64 *e; };
static struct listing lists[64];
static int cmp(const void *a, const void *b) {
    return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}
static struct listing *listing(DIR *d) {
    for (int i = 0; i < 64; i++) if (lists[i].d == d) return &lists[i];
    return 0;
}
static void take(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    struct listing *l = listing(0);
    if (!l) return;
    l->d = d;
    l->n = l->at = 0;
    l->e = 0;
    struct dirent64 *x;
    int cap = 0;
    while ((x = real_readdir64(d))) {
        if (l->n == cap) {
            cap = cap ? cap * 2 : 32;
            l->e = __libc_realloc(l->e, cap * sizeof *l->e);
        }
        memcpy(&l->e[l->n++], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
    }
    if (l->n) qsort(l->e, l->n, sizeof *l->e, cmp);
    for (int i = l->n - 1; i > 0; i--) {
        int j = rnd() % (i + 1);
        struct dirent64 t = l->e[i];
        l->e[i] = l->e[j];
        l->e[j] = t;
    }
}
DIR *opendir(const char *p) {
    init();
    REAL(DIR *, opendir, const char *);
    if (!P) return real_opendir(p);
    struct rule *r = fate(C_OPENDIR);
    int e = fails(r, C_OPENDIR);
    if (e) { errno = e; return 0; }
    DIR *d = real_opendir(p);
    int sv = errno;
    note(C_OPENDIR, 0, d ? 0 : -sv);
    after(r, C_OPENDIR);
    if (d) take(d);
    errno = sv;
    return d;
}
DIR *fdopendir(int fd) {
    init();
    REAL(DIR *, fdopendir, int);
    DIR *d = real_fdopendir(fd);
    if (P && d) {
        if (fd >= 0 && fd < 1024) fds[fd] = 0;
        take(d);
    }
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    init();
    REAL(struct dirent64 *, readdir64, DIR *);
    struct listing *l = P && d ? listing(d) : 0;
    if (!l) return real_readdir64(d);
    struct rule *r = fate(C_READDIR);
    int e = fails(r, C_READDIR);
    if (e) { errno = e; return 0; }
    struct dirent64 *x = l->at < l->n ? &l->e[l->at++] : 0;
    note(C_READDIR, 0, x != 0);
    after(r, C_READDIR);
    return x; /* errno untouched: end of the listing */
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    init();
    REAL(int, closedir, DIR *);
    struct listing *l = P && d ? listing(d) : 0;
    if (l) {
        free(l->e);
        l->d = 0;
        l->e = 0;
    }
    return real_closedir(d);
}

/* ------------------------------------------------------------ randomness, clocks, terminal, memory */

pid_t getpid(void) {
    init();
    return P ? (pid_t)(300 + splitmix(P->rnd_seed ^ P->bg_seed) % 30000) : (pid_t)syscall(SYS_getpid);
}
pid_t getppid(void) { init(); return P ? 299 : (pid_t)syscall(SYS_getppid); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    init();
    if (!P) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd();
    return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    init();
    if (!P) return syscall(SYS_clock_gettime, c, t);
    uint64_t x = rnd();
    t->tv_sec = 1000000000 + x % 2000000000; /* jumps back and forth */
    t->tv_nsec = (x >> 32) % 1000000000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
int isatty(int fd) {
    init();
    if (P && fd == 1 && (P->flags & F_TTY)) return 1;
    errno = ENOTTY;
    return 0;
}
static int nomem(void) {
    if (!P) return 0;
    struct rule *r = fate(C_ALLOC);
    if (r && r->act == A_ERR) { note(C_ALLOC, A_ERR, ENOMEM); errno = ENOMEM; return 1; }
    after(r, C_ALLOC);
    return 0;
}
void *malloc(size_t n) { return nomem() ? 0 : __libc_malloc(n); }
void *realloc(void *p, size_t n) { return nomem() ? 0 : __libc_realloc(p, n); }
void *calloc(size_t a, size_t b) { return nomem() ? 0 : __libc_calloc(a, b); }
