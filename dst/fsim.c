// File system fault injector (LD_PRELOAD). Inactive until fsim_arm() is called; acts only on paths below the armed prefix.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, CRASH_BEFORE, CRASH_TORN, CRASH_AFTER, FAIL_ONCE, FAIL_FROM, SHORT_WRITE };

#define MAXFD 4096
static char prefix[1024];
static size_t prefix_len;
static int armed, kind, err_no, injected;
static long at_op, ops, torn_permille;
static unsigned char ours[MAXFD];
static void (*crash_cb)(void);
static char fail_read_name[256];
static int fail_read_errno;
#define LOGMAX 4096
static char oplog[LOGMAX];
static int oplog_n;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void fsim_arm(const char *p, int k, long op, int err, long permille, void (*cb)(void)) {
    strncpy(prefix, p, sizeof prefix - 1);
    prefix_len = strlen(prefix);
    kind = k; at_op = op; err_no = err; torn_permille = permille; crash_cb = cb;
    ops = 0; injected = 0; oplog_n = 0;
    armed = 1;
}
void fsim_disarm(void) { armed = 0; fail_read_name[0] = 0; }
long fsim_ops(void) { return ops; }
int fsim_injected(void) { return injected; }
const char *fsim_oplog(void) { oplog[oplog_n < LOGMAX ? oplog_n : LOGMAX - 1] = 0; return oplog; }
void fsim_fail_read(const char *name, int err) { strncpy(fail_read_name, name, sizeof fail_read_name - 1); fail_read_errno = err; }

static int mine(const char *path) {
    if (!armed || !path) return 0;
    if (path[0] == '/') return strncmp(path, prefix, prefix_len) == 0;
    char cwd[1024];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    return strncmp(cwd, prefix, prefix_len) == 0;
}
static int mine_fd(int fd) { return armed && fd >= 0 && fd < MAXFD && ours[fd]; }
static void set_fd(int fd, int v) { if (fd >= 0 && fd < MAXFD) ours[fd] = v; }

static void die(void) {
    armed = 0;
    if (crash_cb) crash_cb();
    _exit(137);
}

// 0: go on, 1: fail with errno, 2: torn crash (writes only), 3: crash after, 4: short write
static int op(char what, int is_write) {
    ops++;
    if (oplog_n < LOGMAX - 1) oplog[oplog_n++] = what;
    switch (kind) {
    case CRASH_BEFORE: if (ops == at_op) { injected++; die(); } break;
    case CRASH_TORN: if (ops == at_op) { injected++; if (is_write) return 2; die(); } break;
    case CRASH_AFTER: if (ops == at_op) { injected++; return 3; } break;
    case FAIL_ONCE: if (ops == at_op) { injected++; errno = err_no; return 1; } break;
    case FAIL_FROM:
        // a full disk does not keep anybody from deleting, renaming or truncating files
        if (ops >= at_op && (err_no != ENOSPC || what == 'w' || what == 'o' || what == 'm')) { injected++; errno = err_no; return is_write ? 5 : 1; }
        break;
    case SHORT_WRITE: if (ops == at_op && is_write) { injected++; return 4; } break;
    }
    return 0;
}
#define SIMPLE(what, cond, call) \
    if (!(cond)) return call; \
    int m = op(what, 0); \
    if (m == 1) return -1; \
    int r = call; int e = errno; \
    if (m == 3) die(); \
    errno = e; return r;

static int mutating(int flags) { return (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) != 0; }
static int read_blocked(const char *path) {
    if (!fail_read_name[0] || !path || !strstr(path, fail_read_name)) return 0;
    errno = fail_read_errno; injected++;
    return 1;
}

static int do_open(int (*f)(const char *, int, ...), const char *path, int flags, mode_t mode) {
    if (read_blocked(path)) return -1;
    if (!mine(path)) { int r = f(path, flags, mode); set_fd(r, 0); return r; }
    int m = 0;
    struct stat st;
    if (mutating(flags) && ((flags & O_TRUNC) || ((flags & O_CREAT) && stat(path, &st) != 0))) {
        // opening an existing file without truncating it changes nothing
        int full = kind == FAIL_FROM && err_no == ENOSPC && stat(path, &st) == 0;
        if (full) { ops++; if (oplog_n < LOGMAX - 1) oplog[oplog_n++] = 't'; }
        else m = op('o', 0);
        if (m == 1) return -1;
    }
    int r = f(path, flags, mode);
    set_fd(r, mutating(flags));
    int e = errno;
    if (m == 3) die();
    errno = e;
    return r;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE REAL(int, open, const char *, int, ...); return do_open(real_open, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE REAL(int, open64, const char *, int, ...); return do_open(real_open64, path, flags, mode); }
static int do_openat(int (*f)(int, const char *, int, ...), int dir, const char *path, int flags, mode_t mode) {
    if (read_blocked(path)) return -1;
    if (!mine(path)) { int r = f(dir, path, flags, mode); set_fd(r, 0); return r; }
    int m = 0;
    if (mutating(flags)) { m = op('o', 0); if (m == 1) return -1; }
    int r = f(dir, path, flags, mode);
    set_fd(r, mutating(flags));
    if (m == 3) die();
    return r;
}
int openat(int d, const char *path, int flags, ...) { MODE REAL(int, openat, int, const char *, int, ...); return do_openat(real_openat, d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE REAL(int, openat64, int, const char *, int, ...); return do_openat(real_openat64, d, path, flags, mode); }

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int positioned) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    if (!mine_fd(fd)) return positioned ? real_pwrite(fd, buf, n, off) : real_write(fd, buf, n);
    int m = op('w', 1);
    if (m == 1) return -1;
    size_t part = n * torn_permille / 1000;
    if (m == 5) { // disk full: once, a part still fits
        if (injected == 1 && part > 0 && part < n) return positioned ? real_pwrite(fd, buf, part, off) : real_write(fd, buf, part);
        errno = err_no;
        return -1;
    }
    if (m == 2) {
        ssize_t ignored = positioned ? real_pwrite(fd, buf, part, off) : real_write(fd, buf, part);
        (void)ignored;
        die();
    }
    if (m == 4 && n > 1) n = part ? part : 1;
    ssize_t r = positioned ? real_pwrite(fd, buf, n, off) : real_write(fd, buf, n);
    int e = errno;
    if (m == 3) die();
    errno = e;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, 0, 0); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off, 1); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off, 1); }
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!mine_fd(fd)) return real_writev(fd, iov, cnt);
    ssize_t total = 0;
    for (int i = 0; i < cnt; i++) {
        ssize_t r = do_write(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
        if (r < 0) return total ? total : r;
        total += r;
        if ((size_t)r < iov[i].iov_len) break;
    }
    return total;
}
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); SIMPLE('r', mine(a) || mine(b), real_rename(a, b)) }
int renameat(int da, const char *a, int db, const char *b) { REAL(int, renameat, int, const char *, int, const char *); SIMPLE('r', mine(a) || mine(b), real_renameat(da, a, db, b)) }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); SIMPLE('r', mine(a) || mine(b), real_renameat2(da, a, db, b, f)) }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); SIMPLE('l', mine(b), real_link(a, b)) }
int unlink(const char *a) { REAL(int, unlink, const char *); SIMPLE('u', mine(a), real_unlink(a)) }
int unlinkat(int d, const char *a, int f) { REAL(int, unlinkat, int, const char *, int); SIMPLE('u', mine(a), real_unlinkat(d, a, f)) }
int truncate(const char *a, off_t n) { REAL(int, truncate, const char *, off_t); SIMPLE('t', mine(a), real_truncate(a, n)) }
int truncate64(const char *a, off_t n) { REAL(int, truncate64, const char *, off_t); SIMPLE('t', mine(a), real_truncate64(a, n)) }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); SIMPLE('t', mine_fd(fd), real_ftruncate(fd, n)) }
int ftruncate64(int fd, off_t n) { REAL(int, ftruncate64, int, off_t); SIMPLE('t', mine_fd(fd), real_ftruncate64(fd, n)) }
int mkdir(const char *a, mode_t m_) { REAL(int, mkdir, const char *, mode_t); SIMPLE('m', mine(a), real_mkdir(a, m_)) }
int fsync(int fd) { REAL(int, fsync, int); SIMPLE('s', mine_fd(fd), real_fsync(fd)) }
int fdatasync(int fd) { REAL(int, fdatasync, int); SIMPLE('s', mine_fd(fd), real_fdatasync(fd)) }
int close(int fd) {
    REAL(int, close, int);
    int was = mine_fd(fd);
    set_fd(fd, 0);
    if (!was) return real_close(fd);
    int m = op('c', 0);
    if (m == 1) { real_close(fd); errno = err_no; return -1; }
    int r = real_close(fd);
    if (m == 3) die();
    return r;
}
int dup2(int a, int b) { REAL(int, dup2, int, int); int r = real_dup2(a, b); if (r >= 0) set_fd(r, mine_fd(a)); return r; }

// Randomness of native code (DuckDB seeds its generators with the system call): a fixed sequence once fsim_random() is called.
static int fixed_random;
static unsigned long random_state;
void fsim_random(unsigned long seed) { fixed_random = 1; random_state = seed; }
long syscall(long number, ...) {
    va_list ap; va_start(ap, number);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (number == SYS_getrandom && fixed_random) {
        for (long i = 0; i < a[1]; i++) {
            unsigned long z = (random_state += 0x9E3779B97F4A7C15ul);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ul;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBul;
            ((unsigned char *)a[0])[i] = (unsigned char)(z ^ (z >> 31));
        }
        return a[1];
    }
    REAL(long, syscall, long, ...);
    return real_syscall(number, a[0], a[1], a[2], a[3], a[4], a[5]);
}
