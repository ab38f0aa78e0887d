/* Interposes the file operations of libc below one directory: logs them, and at the n-th one
 * kills the process, makes it fail, or makes a write short.  Armed from Python through ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { LOG = 0, KILL_BEFORE = 1, FAIL = 2, KILL_HALF = 3, SHORT = 4, CALL = 5, STUCK = 6 };
static void (*callback)(void);
void shim_callback(void (*f)(void)) { callback = f; }
static char stuck[64], stuckname[1024];
static int armed, mode, at, count, err, logfd = -1;
static char dir[PATH_MAX];
static size_t dirlen;
static char fdname[1024][256];

void shim_arm(const char *d, int m, int n, int e, int fd) {
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    mode = m; at = n; err = e; logfd = fd; count = 0;
    memset(fdname, 0, sizeof fdname);
    stuck[0] = 0;
    armed = 1;
}
void shim_disarm(void) { armed = 0; }
int shim_count(void) { return count; }

static const char *below(int dfd, const char *p, char *buf) {
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        char cwd[PATH_MAX];
        if (dfd != AT_FDCWD || !getcwd(cwd, sizeof cwd)) return 0;
        while (p[0] == '.' && p[1] == '/') p += 2;
        snprintf(buf, PATH_MAX, "%s/%s", cwd, p);
        p = buf;
    }
    if (strncmp(p, dir, dirlen) || p[dirlen] != '/') return 0;
    return p + dirlen + 1;
}
static void say(const char *fmt, ...) {
    char b[1200];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    syscall(SYS_write, logfd, b, n);
}
/* returns 1 if the operation must fail with errno = err; 2: do half of it */
static int step_(const char *op, const char *n) {
    count++;
    if (mode == STUCK) {                /* this operation on this file fails however often it is tried */
        if (count == at) { snprintf(stuck, sizeof stuck, "%s", op); snprintf(stuckname, sizeof stuckname, "%s", n ? n : "?"); }
        if (count < at || strcmp(stuck, op) || strcmp(stuckname, n ? n : "?")) return 0;
        say("F "); errno = err; return 1;
    }
    if (mode == LOG || count != at) return 0;
    if (mode == KILL_BEFORE) { say("K\n"); _exit(77); }
    if (mode == CALL) { armed = 0; callback(); armed = 1; return 0; }
    if (mode == FAIL) { say("F "); errno = err; return 1; }
    return 2;
}
#define step() step_(__func__, n)
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int opened(int fd, const char *n, int flags) {
    if (fd >= 0 && fd < 1024) { strncpy(fdname[fd], n, 255); }
    return fd;
}
#define OPENBODY(CALL, DFD) \
    char buf[PATH_MAX]; mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    const char *n = below(DFD, path, buf); \
    if (!n) return CALL; \
    int wr = (flags & O_ACCMODE) != O_RDONLY; \
    if (!wr && !(flags & (O_CREAT | O_TRUNC))) { if (flags & O_DIRECTORY) return CALL; \
        if (step() == 1) { int e = errno; say("openr %s\n", n); errno = e; return -1; } return opened(CALL, n, flags); } \
    int f = step(); \
    if (f == 1) { int e = errno; say("open %d%d%d%d %s\n", !!(flags & O_CREAT), !!(flags & O_TRUNC), !!(flags & O_EXCL), !!(flags & O_APPEND), n); errno = e; return -1; } \
    int r = CALL; int e = errno; \
    say("%sopen %d%d%d%d %s\n", r < 0 ? "f " : "", !!(flags & O_CREAT), !!(flags & O_TRUNC), !!(flags & O_EXCL), !!(flags & O_APPEND), n); \
    errno = e; return opened(r, n, flags);

int open(const char *path, int flags, ...) { REAL(open); OPENBODY(real(path, flags, m), AT_FDCWD) }
int open64(const char *path, int flags, ...) { REAL(open64); OPENBODY(real(path, flags, m), AT_FDCWD) }
int openat(int dfd, const char *path, int flags, ...) { REAL(openat); OPENBODY(real(dfd, path, flags, m), dfd) }
int openat64(int dfd, const char *path, int flags, ...) { REAL(openat64); OPENBODY(real(dfd, path, flags, m), dfd) }
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define FDN(fd) (armed && (fd) >= 0 && (fd) < 1024 && fdname[fd][0] ? fdname[fd] : 0)
ssize_t write(int fd, const void *b, size_t c) {
    REAL(write);
    const char *n = FDN(fd);
    if (!n) return real(fd, b, c);
    int f = step();
    if (f == 1) { int e = errno; say("write %zu %s\n", c, n); errno = e; return -1; }
    if (f == 2) {
        ssize_t r = real(fd, b, c / 2 ? c / 2 : c);
        say("write %zd %s\n", r, n);
        if (mode == KILL_HALF) { say("K\n"); _exit(77); }
        return r;
    }
    ssize_t r = real(fd, b, c);
    int e = errno;
    say("%swrite %zd %s\n", r < 0 ? "f " : "", r, n);
    errno = e;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    REAL(writev);
    const char *n = FDN(fd);
    if (!n) return real(fd, v, k);
    if (step() == 1) { int e = errno; say("write 1 %s\n", n); errno = e; return -1; }
    ssize_t r = real(fd, v, k);
    int e = errno; say("%swrite %zd %s\n", r < 0 ? "f " : "", r, n); errno = e;
    return r;
}
#define PW(NAME, OFF) ssize_t NAME(int fd, const void *b, size_t c, OFF o) { REAL(NAME); const char *n = FDN(fd); \
    if (!n) return real(fd, b, c, o); if (step() == 1) { int e = errno; say("write %zu %s\n", c, n); errno = e; return -1; } \
    ssize_t r = real(fd, b, c, o); int e = errno; say("%swrite %zd %s\n", r < 0 ? "f " : "", r, n); errno = e; return r; }
PW(pwrite, off_t)
PW(pwrite64, off64_t)
#define SF(NAME, OFF) ssize_t NAME(int out, int in, OFF *o, size_t c) { REAL(NAME); const char *n = FDN(out); \
    if (!n) return real(out, in, o, c); if (step() == 1) { int e = errno; say("write %zu %s\n", c, n); errno = e; return -1; } \
    ssize_t r = real(out, in, o, c); int e = errno; if (r > 0) say("write %zd %s\n", r, n); errno = e; return r; }
SF(sendfile, off_t)
SF(sendfile64, off64_t)
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t c, unsigned fl) {
    REAL(copy_file_range); const char *n = FDN(out);
    if (!n) return real(in, oi, out, oo, c, fl);
    if (step() == 1) { int e = errno; say("write %zu %s\n", c, n); errno = e; return -1; }
    ssize_t r = real(in, oi, out, oo, c, fl); int e = errno; if (r > 0) say("write %zd %s\n", r, n); errno = e; return r;
}
ssize_t read(int fd, void *b, size_t c) {
    REAL(read);
    const char *n = FDN(fd);
    if (!n) return real(fd, b, c);
    if (step() == 1) { int e = errno; say("read %s\n", n); errno = e; return -1; }
    return real(fd, b, c);
}
int close(int fd) {
    REAL(close);
    const char *n = FDN(fd);
    if (!n) return real(fd);
    char nm[256];
    strcpy(nm, n);
    n = nm;
    fdname[fd][0] = 0;
    if (step() == 1) { int e = errno; say("close %s\n", nm); real(fd); errno = e; return -1; }
    int r = real(fd); int e = errno; say("close %s\n", nm); errno = e;
    return r;
}
#define FS(NAME) int NAME(int fd) { REAL(NAME); const char *n = FDN(fd); if (!n) return real(fd); \
    if (step() == 1) { int e = errno; say("sync %s\n", n); errno = e; return -1; } return real(fd); }
FS(fsync)
FS(fdatasync)
#define TR(NAME, OFF) int NAME(int fd, OFF l) { REAL(NAME); const char *n = FDN(fd); if (!n) return real(fd, l); \
    if (step() == 1) { int e = errno; say("truncate %lld %s\n", (long long)l, n); errno = e; return -1; } \
    int r = real(fd, l); int e = errno; if (!r) say("truncate %lld %s\n", (long long)l, n); errno = e; return r; }
TR(ftruncate, off_t)
TR(ftruncate64, off64_t)
int truncate(const char *p, off_t l) {
    REAL(truncate); char buf[PATH_MAX]; const char *n = below(AT_FDCWD, p, buf); if (!n) return real(p, l);
    if (step() == 1) { int e = errno; say("truncate %lld %s\n", (long long)l, n); errno = e; return -1; }
    int r = real(p, l); int e = errno; if (!r) say("truncate %lld %s\n", (long long)l, n); errno = e; return r;
}
static int elsewhere(const char *n) { return !n || !strncmp(n, "scratch for temporary files/", 28); }
static int two(const char *op, int da, const char *a, int db, const char *b, int (*go)(int, const char *, int, const char *)) {
    char x[PATH_MAX], y[PATH_MAX];
    const char *m = below(da, a, x), *n = below(db, b, y);
    if (!m && !n) return go(da, a, db, b);
    if (step() == 1) { int e = errno; say("%s %s\t%s\n", op, m ? m : "?", n ? n : "?"); errno = e; return -1; }
    /* the directory for temporary files, and everything outside, is another file system */
    int r, e;
    if (op[0] != 's' && elsewhere(m) != elsewhere(n)) { r = -1; errno = EXDEV; }
    else r = go(da, a, db, b);
    e = errno;
    say("%s%s %s\t%s\n", r ? "f " : "", op, m ? m : "?", n ? n : "?");
    errno = e;
    return r;
}
static int go_rename(int da, const char *a, int db, const char *b) { return syscall(SYS_renameat2, da, a, db, b, 0); }
static int go_link(int da, const char *a, int db, const char *b) { return syscall(SYS_linkat, da, a, db, b, 0); }
static int go_symlink(int da, const char *a, int db, const char *b) { return syscall(SYS_symlinkat, a, db, b); }
int rename(const char *a, const char *b) { return two("rename", AT_FDCWD, a, AT_FDCWD, b, go_rename); }
int renameat(int da, const char *a, int db, const char *b) { return two("rename", da, a, db, b, go_rename); }
int link(const char *a, const char *b) { return two("link", AT_FDCWD, a, AT_FDCWD, b, go_link); }
int linkat(int da, const char *a, int db, const char *b, int fl) { return two("link", da, a, db, b, go_link); }
int symlink(const char *a, const char *b) { return two("symlink", AT_FDCWD, a, AT_FDCWD, b, go_symlink); }
static int one(const char *op, int dfd, const char *p, int fl) {
    char x[PATH_MAX];
    const char *n = below(dfd, p, x);
    if (!n) return syscall(SYS_unlinkat, dfd, p, fl);
    if (step() == 1) { int e = errno; say("%s %s\n", op, n); errno = e; return -1; }
    int r = syscall(SYS_unlinkat, dfd, p, fl); int e = errno;
    say("%s%s %s\n", r ? "f " : "", op, n);
    errno = e;
    return r;
}
int unlink(const char *p) { return one("unlink", AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return one(fl & AT_REMOVEDIR ? "rmdir" : "unlink", d, p, fl); }
int rmdir(const char *p) { return one("rmdir", AT_FDCWD, p, AT_REMOVEDIR); }
int mkdir(const char *p, mode_t m) {
    REAL(mkdir); char x[PATH_MAX]; const char *n = below(AT_FDCWD, p, x); if (!n) return real(p, m);
    if (step() == 1) { int e = errno; say("mkdir %s\n", n); errno = e; return -1; }
    int r = real(p, m); int e = errno; if (!r) say("mkdir %s\n", n); errno = e; return r;
}
