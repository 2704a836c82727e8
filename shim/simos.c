// simos: the simulated operating system seam.
//
// Loaded with LD_PRELOAD in front of the C library. Two uses:
//
//  * plan mode (SIMOS_PLAN set): the unmodified command line program runs as the
//    system under test. One source file lives on a simulated disk, standard
//    output and standard error are simulated devices, and a fault plan decides
//    every open error, short read, EINTR, mid-read rewrite, full disk, broken
//    pipe, failing allocation, random byte and clock reading. Everything that
//    happens is written to an event log.
//
//  * hook mode (SIMOS_PLAN unset): the simulator process itself. It installs
//    callbacks for terminal queries, randomness, clocks, futexes and for a
//    record of everything else that reaches outside the process.
//
// No PRNG draw or clock read happens in a logging path.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

// ------------------------------------------------------------------ raw calls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static long raw3(long n, long a, long b, long c) { return raw6(n, a, b, c, 0, 0, 0); }
static long fix(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ----------------------------------------------------------------- hook mode
struct hooks {
    // return 0: not handled
    int (*winsize)(int fd, struct winsize *ws);      // 1: ok, -1: error (errno EIO)
    int (*isatty)(int fd);                           // 0/1, -1 not handled
    int (*random)(void *buf, size_t len);            // 1 handled
    int (*clock)(int id, struct timespec *ts);       // 1 handled
    int (*futex)(uint32_t *addr, int op, uint32_t val, const struct timespec *to, long *ret); // 1 handled
    int (*yield_)(void);                             // 1 handled
    int (*touch)(const char *what, const char *arg); // 1: recorded
    int (*lookup)(const char *path);                 // -1: no such file, 1: a directory, 2: a file, 0: not handled
    const char *(*env)(const char *name);            // answer to getenv, NULL: not handled
};
static struct hooks H;
EXPORT void simos_set_hooks(const struct hooks *h) { H = *h; }

static void touch(const char *what, const char *arg) { if (H.touch) H.touch(what, arg ? arg : ""); }

// ----------------------------------------------------------------- plan mode
enum { OP_REALPATH, OP_OPEN, OP_READ, OP_W1, OP_W2, OP_IOCTL, OP_MALLOC, OP_ANY, NOPS };
static const char *opnames[NOPS] = {"realpath", "open", "read", "write1", "write2", "ioctl", "malloc", "any"};
struct fault { int op; long idx; char act[16]; long arg; char data[64]; };
#define MAXF 256
static int plan_on;
static char target[PATH_MAX];
static struct fault faults[MAXF];
static int nfaults;
static long counts[NOPS];
static int inode_fd = -1;    // inode the target path currently names
static int open_fds[64], nopen;
static int logfd = -1;
static long cap1 = -1, cap2 = -1; // capacity of the simulated sinks in bytes (-1 unlimited)
static long lie = -1;
static long wrote1, wrote2;
static int tty1 = 0, cols1 = 80;
static uint64_t rstate = 88172645463325252ULL;
static long sticky1, sticky2; // errno once a sink has failed for good
static int in_log;
static char altdir[PATH_MAX];
static char envans[256];
static int env_on;

static void logs(const char *s, size_t n) {
    size_t o = 0;
    while (o < n) {
        long r = raw3(SYS_write, logfd, (long)(s + o), (long)(n - o));
        if (r == -EINTR) continue;
        if (r <= 0) return;
        o += (size_t)r;
    }
}
static void logf_(const char *fmt, ...) {
    if (logfd < 0) return;
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    in_log++;
    int n = vsnprintf(b, sizeof b, fmt, ap);
    in_log--;
    va_end(ap);
    if (n > (int)sizeof b) n = sizeof b;
    logs(b, (size_t)n);
}
static void loghex(const char *tag, long ret, const void *p, size_t n) {
    if (logfd < 0) return;
    static char b[70000];
    size_t k = (size_t)snprintf(b, 64, "%s %ld ", tag, ret);
    const unsigned char *q = p;
    static const char *hx = "0123456789abcdef";
    for (size_t i = 0; i < n; i++) {
        if (k + 4 >= sizeof b) { logs(b, k); k = 0; }
        b[k++] = hx[q[i] >> 4];
        b[k++] = hx[q[i] & 15];
    }
    b[k++] = '\n';
    logs(b, k);
}
static uint64_t rnd(void) {
    rstate ^= rstate << 13; rstate ^= rstate >> 7; rstate ^= rstate << 17;
    return rstate;
}
// every name but the target's exists in this world: as a file with this content, or as a directory
static int others_fd = -1, others_dir;
static int new_inode(const char *path) { // memfd holding the bytes of a real file
    int m = (int)raw3(SYS_memfd_create, (long)"simdisk", 0, 0);
    m = (int)fix(raw3(SYS_fcntl, m, F_DUPFD, 700));
    int f = (int)raw3(SYS_open, (long)path, O_RDONLY, 0);
    static char buf[65536];
    long n;
    while (f >= 0 && (n = raw3(SYS_read, f, (long)buf, sizeof buf)) > 0) {
        long o = 0;
        while (o < n) { long w = raw3(SYS_write, m, (long)(buf + o), n - o); if (w <= 0) break; o += w; }
    }
    if (f >= 0) raw3(SYS_close, f, 0, 0);
    return m;
}

static void mutate(struct fault *f) {
    // data: name of a file in altdir holding bytes
    char p[PATH_MAX + 80];
    snprintf(p, sizeof p, "%s/%s", altdir, f->data);
    int cur = inode_fd;
    if (!strcmp(f->act, "truncate")) {
        raw3(SYS_ftruncate, cur, f->arg, 0);
    } else if (!strcmp(f->act, "replace")) {          // write temp + rename: new inode
        inode_fd = new_inode(p);
    } else if (!strcmp(f->act, "unlink")) {
        inode_fd = -1;
    } else {
        int src = new_inode(p);
        char buf[65536];
        long n = raw6(SYS_pread64, src, (long)buf, sizeof buf, 0, 0, 0);
        if (n < 0) n = 0;
        if (!strcmp(f->act, "append")) {
            struct stat st;
            raw3(SYS_fstat, cur, (long)&st, 0);
            raw6(SYS_pwrite64, cur, (long)buf, n, st.st_size, 0, 0);
        } else if (!strcmp(f->act, "overwrite")) {    // in place at offset arg
            raw6(SYS_pwrite64, cur, (long)buf, n, f->arg, 0, 0);
        }
        raw3(SYS_close, src, 0, 0);
    }
    logf_("MUT %s %ld\n", f->act, f->arg);
}

// returns fault of a returning kind at this op, performing mutations on the way
static struct fault *hit(int op, long *idx) {
    long i = counts[op]++;
    if (idx) *idx = i;
    struct fault *res = 0;
    for (int k = 0; k < nfaults; k++) {
        struct fault *f = &faults[k];
        if (f->op != op || f->idx != i) continue;
        if (!strcmp(f->act, "errno") || !strcmp(f->act, "short") || !strcmp(f->act, "fail")) res = f;
        else mutate(f);
    }
    return res;
}

static void __attribute__((constructor)) init(void) {
    const char *plan = getenv("SIMOS_PLAN");
    if (!plan) return;
    const char *lg = getenv("SIMOS_LOG");
    int fd = (int)raw3(SYS_open, (long)lg, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
    logfd = (int)fix(raw3(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 800));
    raw3(SYS_close, fd, 0, 0);
    fd = (int)raw3(SYS_open, (long)plan, O_RDONLY, 0);
    static char buf[1 << 16];
    long n = raw3(SYS_read, fd, (long)buf, sizeof buf - 1);
    raw3(SYS_close, fd, 0, 0);
    if (n < 0) n = 0;
    buf[n] = 0;
    char *save = 0;
    for (char *l = strtok_r(buf, "\n", &save); l; l = strtok_r(0, "\n", &save)) {
        char key[32] = "", a[PATH_MAX] = "";
        if (sscanf(l, "%31s %4095[^\n]", key, a) < 1) continue;
        if (!strcmp(key, "target")) strcpy(target, a);
        else if (!strcmp(key, "altdir")) strcpy(altdir, a);
        else if (!strcmp(key, "content")) { if (strcmp(a, "-")) inode_fd = new_inode(a); }
        else if (!strcmp(key, "others")) { if (strcmp(a, "dir")) others_fd = new_inode(a); else others_dir = 1; }
        else if (!strcmp(key, "cap1")) cap1 = atol(a);
        else if (!strcmp(key, "cap2")) cap2 = atol(a);
        else if (!strcmp(key, "size")) lie = atol(a);
        else if (!strcmp(key, "env")) { env_on = 1; snprintf(envans, sizeof envans, "%s", a); }
        else if (!strcmp(key, "tty")) { tty1 = 1; cols1 = atoi(a); }
        else if (!strcmp(key, "seed")) { rstate ^= strtoull(a, 0, 10) * 0x9E3779B97F4A7C15ULL; if (!rstate) rstate = 1; }
        else if (!strcmp(key, "fault") && nfaults < MAXF) {
            struct fault *f = &faults[nfaults];
            char on[16];
            memset(f, 0, sizeof *f);
            if (sscanf(a, "%15s %ld %15s %ld %63s", on, &f->idx, f->act, &f->arg, f->data) >= 3) {
                f->op = -1;
                for (int i = 0; i < NOPS; i++) if (!strcmp(on, opnames[i])) f->op = i;
                if (f->op >= 0) nfaults++;
            }
        }
    }
    plan_on = 1;
    logf_("START\n");
}
// a path from the root (the directory is /), without empty, "." and ".." components
static void plain(const char *p, char *out) {
    size_t n = 0, max = PATH_MAX - 2;
    while (*p) {
        while (*p == '/') p++;
        size_t k = strcspn(p, "/");
        if (!k) break;
        if (k == 1 && p[0] == '.') { }
        else if (k == 2 && p[0] == '.' && p[1] == '.') { while (n && out[n - 1] != '/') n--; if (n) n--; }
        else if (n + k + 1 < max) { out[n++] = '/'; memcpy(out + n, p, k); n += k; }
        p += k;
    }
    out[n] = 0;
}
static int is_target(const char *p) {
    if (!plan_on || !p || !target[0]) return 0;
    if (!strcmp(p, target)) return 1;
    char a[PATH_MAX], b[PATH_MAX];
    plain(p, a);
    plain(target, b);
    return !strcmp(a, b);
}
static int is_other(const char *p) {
    if (!plan_on || (others_fd < 0 && !others_dir) || !p || !p[0] || is_target(p)) return 0;
    static const char *own[] = {"/proc", "/sys", "/dev", "/lib", "/usr", "/etc", "/opt"};
    for (unsigned i = 0; i < sizeof own / sizeof *own; i++)
        if (!strncmp(p, own[i], strlen(own[i])) && (p[strlen(own[i])] == '/' || !p[strlen(own[i])])) return 0;
    return 1;
}
static long told_size(long real) { return lie < 0 ? real : lie; } // a size that is not the content's, as of a pipe or a growing file
static int is_open(int fd) {
    if (!plan_on) return 0;
    for (int i = 0; i < nopen; i++) if (open_fds[i] == fd) return 1;
    return 0;
}

// --------------------------------------------------------------- interposers
EXPORT char *realpath(const char *path, char *resolved) {
    if (is_target(path)) {
        struct fault *f = hit(OP_REALPATH, 0);
        if (f) { logf_("OP realpath err %ld\n", f->arg); errno = (int)f->arg; return 0; }
        if (inode_fd < 0) { logf_("OP realpath err %d\n", ENOENT); errno = ENOENT; return 0; }
        logf_("OP realpath ok\n");
        if (resolved) { strcpy(resolved, path); return resolved; }
        return strdup(path);
    }
    if (is_other(path)) {
        logf_("OTHER realpath\n");
        char full[PATH_MAX];
        plain(path, full);
        if (resolved) { strcpy(resolved, full); return resolved; }
        return strdup(full);
    }
    if (plan_on) logf_("TOUCH realpath %s\n", path);
    touch("realpath", path);
    static char *(*real)(const char *, char *);
    if (!real) real = dlsym(RTLD_NEXT, "realpath");
    return real(path, resolved);
}
static int do_open(int dfd, const char *path, int flags, mode_t mode) {
    if (is_target(path)) {
        struct fault *f = hit(OP_OPEN, 0);
        if (f) { logf_("OP open err %ld\n", f->arg); errno = (int)f->arg; return -1; }
        if (inode_fd < 0) { logf_("OP open err %d\n", ENOENT); errno = ENOENT; return -1; }
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) logf_("TOUCH openw %s\n", path);
        // a fresh open file description on the inode (own offset)
        char p[64];
        snprintf(p, sizeof p, "/proc/self/fd/%d", inode_fd);
        int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)p, O_RDWR | O_CLOEXEC, 0, 0, 0);
        if (fd < 0) return (int)fix(fd);
        if (nopen < 64) open_fds[nopen++] = fd;
        logf_("OP open ok\n");
        return fd;
    }
    if (is_other(path)) {
        logf_("OTHER open\n");
        if (others_dir) { if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; } return (int)fix(raw6(SYS_openat, AT_FDCWD, (long)"/proc", O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0, 0, 0)); }
        char p[64];
        snprintf(p, sizeof p, "/proc/self/fd/%d", others_fd);
        return (int)fix(raw6(SYS_openat, AT_FDCWD, (long)p, O_RDONLY | O_CLOEXEC, 0, 0, 0));
    }
    if (plan_on && path && strncmp(path, "/proc/", 6) && strncmp(path, "/sys/", 5)) logf_("TOUCH open %s\n", path);
    touch("open", path);
    return (int)fix(raw6(SYS_openat, dfd, (long)path, flags, mode, 0, 0));
}
#define OPENFN(name)                                                   \
    EXPORT int name(const char *path, int flags, ...) {                \
        mode_t m = 0;                                                  \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
        return do_open(AT_FDCWD, path, flags, m);                      \
    }
OPENFN(open)
OPENFN(open64)
#define OPENATFN(name)                                                 \
    EXPORT int name(int d, const char *path, int flags, ...) {         \
        mode_t m = 0;                                                  \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
        return do_open(d, path, flags, m);                             \
    }
OPENATFN(openat)
OPENATFN(openat64)

EXPORT int close(int fd) {
    if (plan_on) for (int i = 0; i < nopen; i++) if (open_fds[i] == fd) { open_fds[i] = open_fds[--nopen]; logf_("OP close\n"); break; }
    return (int)fix(raw3(SYS_close, fd, 0, 0));
}
static ssize_t target_read(int fd, void *buf, size_t n, off_t off, int positional) {
    struct fault *f = hit(OP_READ, 0);
    if (f && !strcmp(f->act, "errno")) { logf_("OP read err %ld\n", f->arg); errno = (int)f->arg; return -1; }
    if (f && !strcmp(f->act, "short") && f->arg > 0 && (size_t)f->arg < n) n = (size_t)f->arg;
    long r = positional ? raw6(SYS_pread64, fd, (long)buf, (long)n, off, 0, 0) : raw3(SYS_read, fd, (long)buf, (long)n);
    if (r >= 0) loghex(n ? "READ" : "READZ", r, buf, (size_t)r);
    return fix(r);
}
EXPORT ssize_t read(int fd, void *buf, size_t n) {
    if (is_open(fd)) return target_read(fd, buf, n, 0, 0);
    if (plan_on && fd == 0) { logf_("TOUCH stdin\n"); return 0; }
    touch("read", "");
    return fix(raw3(SYS_read, fd, (long)buf, (long)n));
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off_t off) {
    if (is_open(fd)) return target_read(fd, buf, n, off, 1);
    return fix(raw6(SYS_pread64, fd, (long)buf, (long)n, off, 0, 0));
}
EXPORT ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
EXPORT ssize_t readv(int fd, const struct iovec *iov, int cnt) {
    if (is_open(fd)) {
        for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return target_read(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
        return 0;
    }
    return fix(raw3(SYS_readv, fd, (long)iov, cnt));
}
static ssize_t sink(int fd, const void *buf, size_t n) {
    int op = fd == 1 ? OP_W1 : OP_W2;
    long *sticky = fd == 1 ? &sticky1 : &sticky2;
    long cap = fd == 1 ? cap1 : cap2;
    long *wrote = fd == 1 ? &wrote1 : &wrote2;
    const char *tag = fd == 1 ? "W1" : "W2";
    if (n == 0) return 0;
    struct fault *f = hit(op, 0);
    if (*sticky) { logf_("%s err %ld\n", tag, *sticky); errno = (int)*sticky; return -1; }
    if (f && !strcmp(f->act, "errno")) {
        if (f->arg == EPIPE || f->arg == EIO || f->arg == ENOSPC) *sticky = f->arg;
        logf_("%s err %ld\n", tag, f->arg);
        errno = (int)f->arg;
        return -1;
    }
    if (f && !strcmp(f->act, "short") && f->arg > 0 && (size_t)f->arg < n) n = (size_t)f->arg;
    if (cap >= 0) {
        if (*wrote >= cap) { logf_("%s err %d\n", tag, ENOSPC); errno = ENOSPC; return -1; }
        if ((long)n > cap - *wrote) n = (size_t)(cap - *wrote);
    }
    *wrote += (long)n;
    loghex(tag, (long)n, buf, n);
    return (ssize_t)n;
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
    if (plan_on && (fd == 1 || fd == 2)) return sink(fd, buf, n);
    if (is_open(fd)) logf_("TOUCH writefile\n");
    touch("write", "");
    return fix(raw3(SYS_write, fd, (long)buf, (long)n));
}
EXPORT ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (plan_on && (fd == 1 || fd == 2)) {
        static char b[1 << 16];
        size_t n = 0;
        for (int i = 0; i < cnt; i++) {
            size_t k = iov[i].iov_len;
            if (k > sizeof b - n) k = sizeof b - n;
            memcpy(b + n, iov[i].iov_base, k);
            n += k;
            if (n == sizeof b) break;
        }
        return sink(fd, b, n);
    }
    touch("write", "");
    return fix(raw3(SYS_writev, fd, (long)iov, cnt));
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { touch("write", ""); return fix(raw6(SYS_pwrite64, fd, (long)b, (long)n, o, 0, 0)); }
EXPORT ssize_t send(int fd, const void *b, size_t n, int f) { touch("write", ""); return fix(raw6(SYS_sendto, fd, (long)b, (long)n, f, 0, 0)); }
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    touch("thread", "");
    return real(t, a, f, arg);
}
EXPORT pid_t fork(void) {
    static pid_t (*real)(void);
    if (!real) real = dlsym(RTLD_NEXT, "fork");
    touch("fork", "");
    return real();
}

// stat family: the target has the metadata of its inode
// std prints it in panic messages
EXPORT pid_t gettid(void) { return plan_on ? 1234 : (pid_t)raw3(SYS_gettid, 0, 0, 0); }
EXPORT pid_t getpid(void) { return plan_on ? 1234 : (pid_t)raw3(SYS_getpid, 0, 0, 0); }
static int stat_fd(int fd, struct stat *st) {
    int r = (int)fix(raw3(SYS_fstat, fd, (long)st, 0));
    if (!r) st->st_size = told_size(st->st_size);
    return r;
}
EXPORT int fstat(int fd, struct stat *st) {
    if (is_open(fd)) return stat_fd(fd, st);
    return (int)fix(raw3(SYS_fstat, fd, (long)st, 0));
}
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
EXPORT int stat(const char *p, struct stat *st) {
    if (is_target(p)) { if (inode_fd < 0) { errno = ENOENT; return -1; } return stat_fd(inode_fd, st); }
    touch("stat", p);
    if (is_other(p)) { logf_("OTHER stat\n"); return (int)fix(raw6(SYS_newfstatat, others_dir ? AT_FDCWD : others_fd, (long)(others_dir ? "/proc" : ""), (long)st, others_dir ? 0 : AT_EMPTY_PATH, 0, 0)); }
    if (H.lookup) { int k = H.lookup(p); if (k < 0) { errno = ENOENT; return -1; } if (k) { memset(st, 0, sizeof *st); st->st_mode = k == 1 ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_nlink = 1; st->st_size = 17 * k; st->st_mtime = 1000000 * k; return 0; } }
    return (int)fix(raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0, 0, 0));
}
EXPORT int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
EXPORT int lstat(const char *p, struct stat *st) {
    if (is_target(p)) return stat(p, st);
    touch("stat", p);
    if (is_other(p)) { logf_("OTHER stat\n"); return (int)fix(raw6(SYS_newfstatat, others_dir ? AT_FDCWD : others_fd, (long)(others_dir ? "/proc" : ""), (long)st, others_dir ? 0 : AT_EMPTY_PATH, 0, 0)); }
    if (H.lookup) { int k = H.lookup(p); if (k < 0) { errno = ENOENT; return -1; } if (k) { memset(st, 0, sizeof *st); st->st_mode = k == 1 ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_nlink = 1; st->st_size = 17 * k; st->st_mtime = 1000000 * k; return 0; } }
    return (int)fix(raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW, 0, 0));
}
EXPORT int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
EXPORT int statx(int d, const char *p, int flags, unsigned mask, struct statx *sx) {
    if (is_target(p)) {
        if (inode_fd < 0) { errno = ENOENT; return -1; }
        int r = (int)fix(raw6(SYS_statx, inode_fd, (long)"", flags | AT_EMPTY_PATH, mask, (long)sx, 0));
        if (!r) sx->stx_size = told_size(sx->stx_size);
        return r;
    }
    if (p && !p[0] && is_open(d)) {
        int r = (int)fix(raw6(SYS_statx, d, (long)p, flags, mask, (long)sx, 0));
        if (!r) sx->stx_size = told_size(sx->stx_size);
        return r;
    }
    if (p && p[0]) touch("stat", p);
    if (p && p[0] && is_other(p)) { logf_("OTHER stat\n"); return (int)fix(raw6(SYS_statx, others_dir ? AT_FDCWD : others_fd, (long)(others_dir ? "/proc" : ""), (others_dir ? 0 : AT_EMPTY_PATH), mask, (long)sx, 0)); }
    if (p && p[0] && H.lookup) {
        int k = H.lookup(p);
        if (k < 0) { errno = ENOENT; return -1; }
        if (k) { memset(sx, 0, sizeof *sx); sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = k == 1 ? S_IFDIR | 0755 : S_IFREG | 0644; sx->stx_nlink = 1; sx->stx_size = 17 * k; sx->stx_mtime.tv_sec = 1000000 * k; return 0; }
    }
    return (int)fix(raw6(SYS_statx, d, (long)p, flags, mask, (long)sx, 0));
}
EXPORT int access(const char *p, int m) {
    if (is_target(p)) { if (inode_fd < 0) { errno = ENOENT; return -1; } return 0; }
    touch("access", p);
    if (is_other(p)) { logf_("OTHER access\n"); return 0; }
    if (H.lookup) { int k = H.lookup(p); if (k < 0) { errno = ENOENT; return -1; } if (k) return 0; }
    return (int)fix(raw3(SYS_access, (long)p, m, 0));
}

// terminal
EXPORT int isatty(int fd) {
    if (plan_on && fd >= 0 && fd <= 2) { if (tty1) return 1; errno = ENOTTY; return 0; }
    if (H.isatty) { int r = H.isatty(fd); if (r == 0) { errno = ENOTTY; return 0; } if (r == 1) return 1; }
    char t[256];
    return raw3(SYS_ioctl, fd, TCGETS, (long)t) == 0 ? 1 : (errno = ENOTTY, 0);
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (req == TIOCGWINSZ) {
        if (plan_on && fd >= 0 && fd <= 2) {
            struct fault *f = hit(OP_IOCTL, 0);
            if (!tty1) { errno = ENOTTY; return -1; }
            if (f) { errno = (int)f->arg; return -1; }
            struct winsize *w = arg;
            memset(w, 0, sizeof *w);
            w->ws_row = 24;
            w->ws_col = (unsigned short)cols1;
            return 0;
        }
        if (H.winsize) {
            int r = H.winsize(fd, arg);
            if (r == 1) return 0;
            if (r == -1) { errno = EIO; return -1; }
        }
    }
    return (int)fix(raw3(SYS_ioctl, fd, (long)req, (long)arg));
}

// randomness and clocks
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (plan_on) {
        unsigned char *p = buf;
        for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(rnd() >> 24);
        return (ssize_t)n;
    }
    if (H.random && H.random(buf, n) == 1) return (ssize_t)n;
    return fix(raw3(SYS_getrandom, (long)buf, (long)n, fl));
}
EXPORT int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
static uint64_t vclock = 1700000000ULL * 1000000000ULL;
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (plan_on) {
        vclock += rnd() % 1000000000ULL;
        ts->tv_sec = (time_t)(vclock / 1000000000ULL);
        ts->tv_nsec = (long)(vclock % 1000000000ULL);
        return 0;
    }
    if (H.clock && H.clock((int)id, ts) == 1) return 0;
    return (int)fix(raw3(SYS_clock_gettime, id, (long)ts, 0));
}
EXPORT int sched_yield(void) {
    if (H.yield_ && H.yield_() == 1) return 0;
    return (int)fix(raw3(SYS_sched_yield, 0, 0, 0));
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
    if (plan_on) return 0;
    if (H.yield_ && H.yield_() == 1) return 0;
    return (int)fix(raw3(SYS_nanosleep, (long)a, (long)b, 0));
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (plan_on) return 0;
    if (H.yield_ && H.yield_() == 1) return 0;
    return (int)-raw6(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0);
}
EXPORT long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && H.futex) {
        long ret = 0;
        if (H.futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, &ret) == 1) return fix(ret);
    } else if (n == SYS_getrandom) {
        return getrandom((void *)a, (size_t)b, (unsigned)c);
    } else if (plan_on && (n == SYS_gettid || n == SYS_getpid)) {
        return 1234;
    } else if (n == SYS_openat || n == SYS_execve || n == SYS_socket) {
        touch("syscall", "");
    }
    return fix(raw6(n, a, b, c, d, e, f));
}

// everything else that reaches outside the process: recorded; in plan mode refused
#define REFUSE(name, arg) if (plan_on) { logf_("TOUCH " name " %s\n", arg); errno = EPERM; return -1; } touch(name, arg)
EXPORT int unlink(const char *p) { REFUSE("unlink", p); return (int)fix(raw3(SYS_unlink, (long)p, 0, 0)); }
EXPORT int rmdir(const char *p) { REFUSE("rmdir", p); return (int)fix(raw3(SYS_rmdir, (long)p, 0, 0)); }
EXPORT int rename(const char *p, const char *q) { REFUSE("rename", p); return (int)fix(raw3(SYS_rename, (long)p, (long)q, 0)); }
EXPORT int mkdir(const char *p, mode_t m) { REFUSE("mkdir", p); return (int)fix(raw3(SYS_mkdir, (long)p, m, 0)); }
EXPORT int chdir(const char *p) { REFUSE("chdir", p); return (int)fix(raw3(SYS_chdir, (long)p, 0, 0)); }
EXPORT int socket(int a, int b, int c) { REFUSE("socket", ""); return (int)fix(raw3(SYS_socket, a, b, c)); }
EXPORT int execve(const char *p, char *const av[], char *const ev[]) { REFUSE("execve", p); return (int)fix(raw3(SYS_execve, (long)p, (long)av, (long)ev)); }
EXPORT int execvp(const char *p, char *const av[]) {
    REFUSE("execvp", p);
    static int (*real)(const char *, char *const[]);
    if (!real) real = dlsym(RTLD_NEXT, "execvp");
    return real(p, av);
}
#include <spawn.h>
EXPORT int posix_spawn(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
    if (plan_on) { logf_("TOUCH spawn %s\n", p); return EPERM; }
    touch("spawn", p);
    static int (*real)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
    if (!real) real = dlsym(RTLD_NEXT, "posix_spawn");
    return real(pid, p, fa, at, av, ev);
}
EXPORT int posix_spawnp(pid_t *pid, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
    if (plan_on) { logf_("TOUCH spawn %s\n", p); return EPERM; }
    touch("spawn", p);
    static int (*real)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
    if (!real) real = dlsym(RTLD_NEXT, "posix_spawnp");
    return real(pid, p, fa, at, av, ev);
}

// environment reads are observed (C callers; Rust's std::env reads environ through getenv too)
EXPORT char *getenv(const char *name) {
    extern char **environ;
    if (H.env) { const char *a = H.env(name); if (a) return (char *)a; }
    if (!environ || !name) return 0;
    // a variable nobody knows to ask for has a value in this world
    if (plan_on && env_on && strncmp(name, "RUST_", 5) && strncmp(name, "SIMOS_", 6) && strncmp(name, "LD_", 3)) {
        logf_("OP getenv %s\n", name);
        return envans;
    }
    size_t n = strlen(name);
    for (char **e = environ; *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}

// allocation failure (plan mode only; the simulator process has its own allocator seam)
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static int malloc_fault(void) {
    if (!plan_on || in_log) return 0;
    struct fault *f = hit(OP_MALLOC, 0);
    if (f && !strcmp(f->act, "fail")) { logf_("OP malloc fail\n"); errno = ENOMEM; return 1; }
    return 0;
}
EXPORT void *malloc(size_t n) { return malloc_fault() ? 0 : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { return malloc_fault() ? 0 : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return malloc_fault() ? 0 : __libc_realloc(p, n); }

static void __attribute__((destructor)) fini(void) {
    if (plan_on) logf_("END %ld %ld %ld\n", counts[OP_MALLOC], counts[OP_READ], counts[OP_W1]);
}
