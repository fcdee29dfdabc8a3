// LD_PRELOAD library for the huff binary: logs the calls that touch files outside system
// directories, and injects faults into them.
//   VMON_OUT   log file: one line "n class fd want ret errno path" per counted call,
//              "i ret" per read of standard input, "H kB n" at exit (peak resident memory)
//   VMON_PLAN  rules separated by ';':
//     k:N:b|h|a        SIGKILL before / halfway through / after counted call N
//     e:N:ERRNO        call N fails once
//     E:N:ERRNO:CLASS  from call N on, calls whose class is in CLASS fail
//     h:N:LEN          call N (a transfer) transfers at most LEN bytes
//     s:SEED:P:MAX     each transfer is, P times in 1000, cut to 1..MAX bytes
//     i:SEED:P         each transfer is, P times in 1000, interrupted (EINTR), never 4 times in a row
//     I:N              call N is interrupted once
//     p:N              SIGSTOP before call N
//     a:N:MAX          the first N reads of standard input are interrupted ("a" in the log),
//                      and each gives at most MAX bytes (0: any number)
// Classes: o open, c open that creates or truncates, r read, w write, s seek, u unlink,
// m rename, t truncate, f sync, x copy between files, d mkdir/rmdir, l link/symlink.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 1024
static unsigned char watched[NFD];
static int logfd = -1;
static long counter;
struct rule { char kind; long n; long a; long b; char s[16]; };
static struct rule rules[16];
static int nrules;
static uint64_t rs = 1;
static int eintr_row;
static long input_eintr, input_max; // of standard input: how many reads are interrupted, and the most a read gives

static uint64_t rnd(void) {
    rs += 0x9e3779b97f4a7c15ull;
    uint64_t z = rs;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static void out(const char *b, size_t n) {
    if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("VMON_OUT");
    if (p) {
        int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (fd >= 0) {
            logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
            if (logfd < 0) logfd = fd; else syscall(SYS_close, fd);
        }
    }
    p = getenv("VMON_PLAN");
    while (p && *p && nrules < 16) {
        struct rule *r = &rules[nrules];
        memset(r, 0, sizeof *r);
        r->kind = *p;
        char w = 0;
        switch (*p) {
        case 'k': if (sscanf(p, "k:%ld:%c", &r->n, &w) == 2) { r->a = w; nrules++; } break;
        case 'e': if (sscanf(p, "e:%ld:%ld", &r->n, &r->a) == 2) nrules++; break;
        case 'E': if (sscanf(p, "E:%ld:%ld:%15[a-z]", &r->n, &r->a, r->s) == 3) nrules++; break;
        case 'h': if (sscanf(p, "h:%ld:%ld", &r->n, &r->a) == 2) nrules++; break;
        case 's': if (sscanf(p, "s:%ld:%ld:%ld", &r->n, &r->a, &r->b) == 3) { rs ^= r->n * 7919; nrules++; } break;
        case 'i': if (sscanf(p, "i:%ld:%ld", &r->n, &r->a) == 2) { rs ^= r->n * 104729; nrules++; } break;
        case 'I': if (sscanf(p, "I:%ld", &r->n) == 1) nrules++; break;
        case 'p': if (sscanf(p, "p:%ld", &r->n) == 1) nrules++; break;
        case 'a': if (sscanf(p, "a:%ld:%ld", &input_eintr, &input_max) != 2) input_eintr = input_max = 0; break;
        }
        p = strchr(p, ';');
        if (p) p++;
    }
}

__attribute__((destructor)) static void fini(void) {
    char b[4096];
    int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/status", O_RDONLY);
    if (fd < 0) return;
    long n = syscall(SYS_read, fd, b, sizeof b - 1);
    syscall(SYS_close, fd);
    if (n <= 0) return;
    b[n] = 0;
    char *q = strstr(b, "VmHWM:");
    if (q) {
        char o[80];
        int m = snprintf(o, sizeof o, "H %ld %ld\n", strtol(q + 6, 0, 10), counter);
        out(o, m);
    }
}

// one line per call: no line breaks from paths
static void line(const char *fmt_head, const char *path) {
    char o[700];
    int n = snprintf(o, sizeof o - 1, "%s%s", fmt_head, path ? path : "");
    if (n > (int)sizeof o - 2) n = sizeof o - 2;
    for (int i = 0; i < n; i++) if (o[i] == '\n') o[i] = '\r';
    o[n++] = '\n';
    out(o, n);
}

static int interesting(const char *p) {
    static const char *sys[] = {"/proc/", "/sys/", "/etc/", "/usr/", "/lib", "/dev/null", "/dev/urandom", "/dev/tty", "/dev/pts", "/root/", 0};
    for (int i = 0; sys[i]; i++)
        if (!strncmp(p, sys[i], strlen(sys[i]))) return 0;
    return 1;
}

struct ctx { long n; char cls; int fd; long want; const char *path; int half, after; };

// 0: go on; -1: fail with errno set. *len may be shortened.
static int before(struct ctx *c, size_t *len) {
    c->n = __atomic_add_fetch(&counter, 1, __ATOMIC_SEQ_CST);
    c->half = c->after = 0;
    int transfer = c->cls == 'r' || c->cls == 'w' || c->cls == 'x';
    int err = 0;
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        switch (r->kind) {
        case 'k':
            if (r->n == c->n) {
                if (r->a == 'b') kill(getpid(), SIGKILL);
                else if (r->a == 'h') c->half = 1;
                else c->after = 1;
            }
            break;
        case 'p': if (r->n == c->n) kill(getpid(), SIGSTOP); break;
        case 'e': if (r->n == c->n) err = r->a; break;
        case 'E': if (c->n >= r->n && strchr(r->s, c->cls)) err = r->a; break;
        case 'I': if (r->n == c->n && transfer) err = EINTR; break;
        case 'h': if (r->n == c->n && transfer && len && *len > (size_t)r->a && r->a > 0) *len = r->a; break;
        case 's':
            if (transfer && len && *len > 1 && (long)(rnd() % 1000) < r->a) {
                size_t m = 1 + rnd() % (r->b > 0 ? r->b : 1);
                if (m < *len) *len = m;
            }
            break;
        case 'i':
            if (transfer && (long)(rnd() % 1000) < r->a && eintr_row < 3) { eintr_row++; err = EINTR; }
            else if (transfer) eintr_row = 0;
            break;
        }
    }
    if (c->half) {
        if (transfer && len && c->cls == 'w') *len = *len / 2;
        else kill(getpid(), SIGKILL);
    }
    if (err) {
        char o[160];
        snprintf(o, sizeof o, "%ld %c %d %ld -1 %d ", c->n, c->cls, c->fd, c->want, err);
        line(o, c->path);
        errno = err;
        return -1;
    }
    return 0;
}

static void after(struct ctx *c, long ret) {
    int e = errno;
    char o[160];
    snprintf(o, sizeof o, "%ld %c %d %ld %ld %d ", c->n, c->cls, c->fd, c->want, ret, ret < 0 ? e : 0);
    line(o, c->path);
    if (c->half || c->after) kill(getpid(), SIGKILL);
    errno = e;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int is_watched(int fd) { return fd >= 0 && fd < NFD && watched[fd]; }

static int do_open(int dir, const char *p, int fl, mode_t m) {
    int creates = (fl & O_CREAT) || (fl & O_TRUNC);
    if (!interesting(p) || (fl & O_DIRECTORY)) return syscall(SYS_openat, dir, p, fl, m);
    struct ctx c = {.cls = creates ? 'c' : 'o', .fd = -1, .want = fl, .path = p};
    if (before(&c, 0)) return -1;
    int fd = syscall(SYS_openat, dir, p, fl, m);
    if (fd >= 0 && fd < NFD) watched[fd] = 1;
    c.fd = fd;
    after(&c, fd);
    return fd;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }

int close(int fd) {
    if (fd >= 0 && fd < NFD) watched[fd] = 0;
    if (fd == logfd && fd >= 0) return 0;
    return syscall(SYS_close, fd);
}

static int do_fcntl(int fd, int cmd, long a) {
    int r = syscall(SYS_fcntl, fd, cmd, a);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < NFD) watched[r] = is_watched(fd);
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

#define WRAP(CLS, FD, WANT, LENP, CALL) \
    struct ctx c = {.cls = CLS, .fd = FD, .want = (long)(WANT)}; \
    if (before(&c, LENP)) return -1; \
    long ret = CALL; \
    after(&c, ret); \
    return ret;

ssize_t read(int fd, void *b, size_t n) {
    if (fd == 0) {
        if (input_eintr > 0) {
            input_eintr--;
            out("a\n", 2);
            errno = EINTR;
            return -1;
        }
        if (input_max > 0 && n > (size_t)input_max) n = input_max;
        long r = syscall(SYS_read, fd, b, n);
        char o[40];
        out(o, snprintf(o, sizeof o, "i %ld\n", r));
        return r;
    }
    if (!is_watched(fd)) return syscall(SYS_read, fd, b, n);
    WRAP('r', fd, n, &n, syscall(SYS_read, fd, b, n))
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!is_watched(fd)) return syscall(SYS_write, fd, b, n);
    WRAP('w', fd, n, &n, syscall(SYS_write, fd, b, n))
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (!is_watched(fd)) return syscall(SYS_pread64, fd, b, n, o);
    WRAP('r', fd, n, &n, syscall(SYS_pread64, fd, b, n, o))
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (!is_watched(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    WRAP('w', fd, n, &n, syscall(SYS_pwrite64, fd, b, n, o))
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

static size_t total(const struct iovec *v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; return t; }
// cut an array of buffers to len bytes
static int cut(const struct iovec *v, int n, size_t len, struct iovec *o) {
    int k = 0;
    for (; k < n && k < 64; k++) {
        o[k] = v[k];
        if (o[k].iov_len >= len) { o[k].iov_len = len; return k + 1; }
        len -= o[k].iov_len;
    }
    return k;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!is_watched(fd)) return syscall(SYS_readv, fd, v, n);
    size_t t = total(v, n), len = t;
    struct iovec o[64];
    WRAP('r', fd, t, &len, (len == t ? syscall(SYS_readv, fd, v, n) : syscall(SYS_readv, fd, o, cut(v, n, len, o))))
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!is_watched(fd)) return syscall(SYS_writev, fd, v, n);
    size_t t = total(v, n), len = t;
    struct iovec o[64];
    WRAP('w', fd, t, &len, (len == t ? syscall(SYS_writev, fd, v, n) : syscall(SYS_writev, fd, o, cut(v, n, len, o))))
}
off64_t lseek64(int fd, off64_t o, int w) {
    if (!is_watched(fd)) return syscall(SYS_lseek, fd, o, w);
    WRAP('s', fd, o, 0, syscall(SYS_lseek, fd, o, w))
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int ftruncate64(int fd, off64_t l) {
    if (!is_watched(fd)) return syscall(SYS_ftruncate, fd, l);
    WRAP('t', fd, l, 0, syscall(SYS_ftruncate, fd, l))
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int fsync(int fd) {
    if (!is_watched(fd)) return syscall(SYS_fsync, fd);
    WRAP('f', fd, 0, 0, syscall(SYS_fsync, fd))
}
int fdatasync(int fd) {
    if (!is_watched(fd)) return syscall(SYS_fdatasync, fd);
    WRAP('f', fd, 0, 0, syscall(SYS_fdatasync, fd))
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
    if (!is_watched(i) && !is_watched(o)) return syscall(SYS_copy_file_range, i, io, o, oo, n, fl);
    WRAP('x', o, n, &n, syscall(SYS_copy_file_range, i, io, o, oo, n, fl))
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (!is_watched(i) && !is_watched(o)) return syscall(SYS_sendfile, o, i, off, n);
    WRAP('x', o, n, &n, syscall(SYS_sendfile, o, i, off, n))
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }

#define PATHWRAP(CLS, P, CALL) \
    if (!interesting(P)) return CALL; \
    struct ctx c = {.cls = CLS, .fd = -1, .want = 0, .path = P}; \
    if (before(&c, 0)) return -1; \
    int ret = CALL; \
    after(&c, ret); \
    return ret;
int unlink(const char *p) { PATHWRAP('u', p, syscall(SYS_unlink, p)) }
int unlinkat(int d, const char *p, int f) { PATHWRAP('u', p, syscall(SYS_unlinkat, d, p, f)) }
int rename(const char *a, const char *b) { PATHWRAP('m', b, syscall(SYS_rename, a, b)) }
int renameat(int x, const char *a, int y, const char *b) { PATHWRAP('m', b, syscall(SYS_renameat, x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { PATHWRAP('m', b, syscall(SYS_renameat2, x, a, y, b, f)) }
int truncate(const char *p, off_t l) { PATHWRAP('t', p, syscall(SYS_truncate, p, l)) }
int truncate64(const char *p, off64_t l) { PATHWRAP('t', p, syscall(SYS_truncate, p, l)) }
int link(const char *a, const char *b) { PATHWRAP('l', b, syscall(SYS_link, a, b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { PATHWRAP('l', b, syscall(SYS_linkat, x, a, y, b, f)) }
int symlink(const char *a, const char *b) { PATHWRAP('l', b, syscall(SYS_symlink, a, b)) }
int mkdir(const char *p, mode_t m) { PATHWRAP('d', p, syscall(SYS_mkdir, p, m)) }
int rmdir(const char *p) { PATHWRAP('d', p, syscall(SYS_rmdir, p)) }
