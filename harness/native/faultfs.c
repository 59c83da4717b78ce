/* LD_PRELOAD shim: logs every file system operation under FAULTFS_DIR (and writes to stdout/stderr) and makes chosen ones fail.
   FAULTFS_LOG   file the events go to (one line each: op result path bytes)
   FAULTFS_AT    1-based number of the first operation to fail (0: none)
   FAULTFS_MODE  enospc (that operation and all later writes fail) | eio (only that operation) | short (a write is cut in half)
                 | eintr (the operation is interrupted once)
   Only operations that a fault applies to are numbered. No destructive operation is ever added: a failing call is not performed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/syscall.h>

static char dir[4096]; static size_t dl; static int logfd = -1; static long at, count; static int mode, fired;
static char *names[4096]; static char isout[4096];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
enum { NONE, ENOSPC_, EIO_, SHORT_, EINTR_ };

static void init(void) {
    static int done; if (done) return; done = 1;
    const char *d = getenv("FAULTFS_DIR"), *l = getenv("FAULTFS_LOG"), *m = getenv("FAULTFS_MODE"), *a = getenv("FAULTFS_AT");
    if (!d || !l) return;
    strncpy(dir, d, sizeof dir - 1); dl = strlen(dir);
    at = a ? atol(a) : 0;
    mode = !m ? NONE : !strcmp(m, "enospc") ? ENOSPC_ : !strcmp(m, "eio") ? EIO_ : !strcmp(m, "short") ? SHORT_ : !strcmp(m, "eintr") ? EINTR_ : NONE;
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (fd >= 0) { logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, fd); }
}
static void say(const char *op, long res, int err, const char *path, long n) {
    if (logfd < 0) return;
    static char b[5000]; int k = snprintf(b, sizeof b, "%s\t%ld\t%d\t%ld\t%s\n", op, res, err, n, path);
    syscall(SYS_write, logfd, b, k < (int)sizeof b ? k : (int)sizeof b);
}
static const char *under(int dfd, const char *p, char *buf) {   /* absolute path if p lies under dir */
    if (!dl || !p) return 0;
    if (p[0] != '/') {
        char base[4096]; ssize_t n;
        if (dfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd); n = readlink(l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
        while (p[0] == '.' && p[1] == '/') p += 2;
        snprintf(buf, 8192, "%s/%s", base, p);
    } else snprintf(buf, 8192, "%s", p);
    return strncmp(buf, dir, dl) == 0 && buf[dl] == '/' ? buf : 0;
}
/* 1: fail with errno */
static int fault(int iswrite, int cancut, int intr) {
    if (!at) return 0;
    count++;
    if (count == at) { fired = 1; if (mode == SHORT_) return cancut ? 2 : 0; if (mode == EINTR_) { if (!intr) return 0; errno = EINTR; return 1; } errno = mode == ENOSPC_ ? ENOSPC : EIO; return 1; }
    if (count > at && mode == ENOSPC_ && iswrite) { errno = ENOSPC; return 1; }
    return 0;
}
#define REAL(t, n, ...) static t (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, n); init();

static int doopen(const char *fn, int dfd, const char *p, int fl, mode_t m, int (*f)(const char *, int, ...), int (*g)(int, const char *, int, ...)) {
    char buf[8192]; const char *u = under(dfd, p, buf);
    if (u && logfd >= 0) {
        int out = (fl & O_ACCMODE) != O_RDONLY;
        pthread_mutex_lock(&mu);
        const char *op = out ? "create" : (fl & O_DIRECTORY) ? "opendir" : "open";
        int r = fault(out, 0, 1) ? -1 : g ? g(dfd, p, fl, m) : f(p, fl, m);
        int e = errno;
        if (r >= 0 && r < 4096) { free(names[r]); names[r] = strdup(u); isout[r] = out; }
        say(op, r < 0 ? -1 : 0, r < 0 ? e : 0, u, 0);
        pthread_mutex_unlock(&mu);
        errno = e; return r;
    }
    int r = g ? g(dfd, p, fl, m) : f(p, fl, m);
    if (r >= 0 && r < 4096 && names[r]) { free(names[r]); names[r] = 0; }
    return r;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { REAL(int, "open", const char *, int, ...) MODE return doopen("open", AT_FDCWD, p, fl, m, real, 0); }
int open64(const char *p, int fl, ...) { REAL(int, "open64", const char *, int, ...) MODE return doopen("open", AT_FDCWD, p, fl, m, real, 0); }
int openat(int d, const char *p, int fl, ...) { REAL(int, "openat", int, const char *, int, ...) MODE return doopen("openat", d, p, fl, m, 0, real); }
int openat64(int d, const char *p, int fl, ...) { REAL(int, "openat64", int, const char *, int, ...) MODE return doopen("openat", d, p, fl, m, 0, real); }
int close(int fd) { REAL(int, "close", int)
    if (fd == logfd && fd >= 0) return 0;
    if (fd >= 0 && fd < 4096 && names[fd]) { pthread_mutex_lock(&mu); free(names[fd]); names[fd] = 0; pthread_mutex_unlock(&mu); }
    return real(fd); }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t)
    if (logfd >= 0 && (fd == 1 || fd == 2)) {
        if (fd == 2) { ssize_t r = real(fd, b, n); static const char m[] = "stderr\t0\t0\t0\ttext\n"; if (n > 1) syscall(SYS_write, logfd, m, sizeof m - 1); return r; }
        pthread_mutex_lock(&mu); static char t[4000]; size_t k = 0; for (size_t i = 0; i < n && k < sizeof t - 1; i++) { char c = ((const char *)b)[i]; t[k++] = c == '\n' || c == '\t' ? ' ' : c; } t[k] = 0;
        ssize_t r = real(fd, b, n); say("stdout", 0, 0, t, n); pthread_mutex_unlock(&mu); return r; }
    if (logfd >= 0 && fd >= 0 && fd < 4096 && names[fd]) {
        pthread_mutex_lock(&mu);
        int q = fault(1, n > 1, 1); ssize_t r = q == 1 ? -1 : real(fd, b, q == 2 ? n / 2 : n); int e = errno;
        say("write", r < 0 ? -1 : 0, r < 0 ? e : 0, names[fd], r < 0 ? 0 : r);
        pthread_mutex_unlock(&mu); errno = e; return r; }
    return real(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, "writev", int, const struct iovec *, int)
    if (logfd >= 0 && fd >= 0 && fd < 4096 && names[fd]) {
        pthread_mutex_lock(&mu);
        int q = fault(1, 0, 1); ssize_t r = q == 1 ? -1 : real(fd, v, c); int e = errno;
        say("write", r < 0 ? -1 : 0, r < 0 ? e : 0, names[fd], r < 0 ? 0 : r);
        pthread_mutex_unlock(&mu); errno = e; return r; }
    return real(fd, v, c); }
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, "read", int, void *, size_t)
    if (logfd >= 0 && fd >= 0 && fd < 4096 && names[fd] && n) {
        pthread_mutex_lock(&mu);
        int q = fault(0, n > 1, 1); ssize_t r = q == 1 ? -1 : real(fd, b, q == 2 && n > 1 ? (n + 1) / 2 : n); int e = errno;
        say("read", r < 0 ? -1 : 0, r < 0 ? e : 0, names[fd], r < 0 ? 0 : r);
        pthread_mutex_unlock(&mu); errno = e; return r; }
    return real(fd, b, n); }
#define PATHOP(name, sig, call, logname) int name sig { REAL(int, #name, PROTO_##name) char buf[8192]; const char *u = under(DFD_##name, p, buf); \
    if (u && logfd >= 0) { pthread_mutex_lock(&mu); int r = fault(ISW_##name, 0, 0) ? -1 : call; int e = errno; say(logname, r < 0 ? -1 : 0, r < 0 ? e : 0, u, 0); pthread_mutex_unlock(&mu); errno = e; return r; } \
    return call; }
#define PROTO_mkdir const char *, mode_t
#define DFD_mkdir AT_FDCWD
#define ISW_mkdir 1
PATHOP(mkdir, (const char *p, mode_t m), real(p, m), "mkdir")
#define PROTO_unlink const char *
#define DFD_unlink AT_FDCWD
#define ISW_unlink 0
PATHOP(unlink, (const char *p), real(p), "unlink")
#define PROTO_rmdir const char *
#define DFD_rmdir AT_FDCWD
#define ISW_rmdir 0
PATHOP(rmdir, (const char *p), real(p), "rmdir")
#define PROTO_unlinkat int, const char *, int
#define DFD_unlinkat d
#define ISW_unlinkat 0
PATHOP(unlinkat, (int d, const char *p, int f), real(d, p, f), "unlinkat")
#define PROTO_rename const char *, const char *
#define DFD_rename AT_FDCWD
#define ISW_rename 1
PATHOP(rename, (const char *p, const char *q), real(p, q), "rename")
