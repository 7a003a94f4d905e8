/* LD_PRELOAD monitor: logs the file operations of a program on one directory tree, and can delay
 * them, make one of them fail, cut it short, or kill the process around it.
 *
 *  VSHIM_DIR    directory tree that is watched
 *  VSHIM_LOG    file the events are appended to: "<ns> <pid> <n> <op> <path> <result>"
 *  VSHIM_AT     number (from 1) of the event the fault is applied to
 *  VSHIM_MODE   kill_before kill_after eio enospc eintr short_enospc short_kill short_ok
 *               exdev eacces
 *  VSHIM_AT2, VSHIM_MODE2  a second fault
 *  VSHIM_READS  if set, opening for reading and reading are events as well
 *  VSHIM_DELAY  seed of random delays before and after events (up to VSHIM_DELAY_US)
 *  VSHIM_RAND   seed for getrandom (reproducible hash orders)
 *
 * Only operations that change the tree are events: creating / truncating / write opens, writes,
 * truncations, syncs, renames, links, removals, directory creation. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static char dir[PATH_MAX];
static size_t dirlen;
static int logfd = -1;
static long at = -1, at2 = -1;
static char mode1[32], mode2[32];
static char *mode = mode1;
static int reads;
static uint64_t dseed, rseed;
static long dmax = 400;
static int use_rand;
static long events;
static char tracked[4096];
static char names[4096][64];

static uint64_t sm(uint64_t *x) {
    *x += 0x9E3779B97F4A7C15ull;
    uint64_t z = *x;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

__attribute__((constructor)) static void init(void) {
    const char *e;
    if ((e = getenv("VSHIM_DIR"))) {
        strncpy(dir, e, sizeof dir - 1);
        dirlen = strlen(dir);
    }
    if ((e = getenv("VSHIM_LOG"))) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_APPEND, 0666);
        if (fd >= 0) {
            logfd = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
            syscall(SYS_close, fd);
        }
    }
    if ((e = getenv("VSHIM_AT"))) at = atol(e);
    if ((e = getenv("VSHIM_MODE"))) strncpy(mode1, e, sizeof mode1 - 1);
    if ((e = getenv("VSHIM_AT2"))) at2 = atol(e);
    if ((e = getenv("VSHIM_MODE2"))) strncpy(mode2, e, sizeof mode2 - 1);
    if (getenv("VSHIM_READS")) reads = 1;
    if ((e = getenv("VSHIM_DELAY"))) dseed = strtoull(e, 0, 10) * 2 + 1;
    if ((e = getenv("VSHIM_DELAY_US"))) dmax = atol(e);
    if ((e = getenv("VSHIM_RAND"))) {
        rseed = strtoull(e, 0, 10);
        use_rand = 1;
    }
}

static void absolute(int dfd, const char *p, char *out) {
    if (p[0] == '/') {
        snprintf(out, PATH_MAX, "%s", p);
        return;
    }
    char base[PATH_MAX];
    base[0] = 0;
    if (dfd == AT_FDCWD) {
        if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
    } else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
        ssize_t n = syscall(SYS_readlink, l, base, sizeof base - 1);
        base[n > 0 ? n : 0] = 0;
    }
    while (p[0] == '.' && p[1] == '/') p += 2;
    snprintf(out, PATH_MAX, "%s/%s", base, p);
}

static int under(int dfd, const char *p, char *out) {
    if (!dirlen || !p) return 0;
    absolute(dfd, p, out);
    return strncmp(out, dir, dirlen) == 0 && (out[dirlen] == '/' || out[dirlen] == 0);
}

static void delay(void) {
    if (!dseed) return;
    uint64_t r = sm(&dseed);
    if (r % 3 == 0) return;
    struct timespec t = {0, (long)(sm(&dseed) % (uint64_t)(dmax * 1000 + 1))};
    syscall(SYS_nanosleep, &t, 0);
}

static void logev(long n, const char *op, const char *path, long res) {
    if (logfd < 0) return;
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    char b[PATH_MAX + 200];
    const char *q = strlen(path) > dirlen && strncmp(path, dir, dirlen) == 0 ? path + dirlen + 1 : path;
    int k = snprintf(b, sizeof b, "%lld %d %ld %s %s %ld\n",
                     (long long)t.tv_sec * 1000000000ll + t.tv_nsec, (int)syscall(SYS_getpid), n, op, q, res);
    raw_write(logfd, b, (size_t)k);
}

static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}

/* returns 0: go on; 1: fail with errno set; 2: cut short (writes only) */
static int before(long *n, const char *op, const char *path) {
    delay();
    *n = ++events;
    if (*n != at && *n != at2) return 0;
    mode = *n == at ? mode1 : mode2;
    if (!strcmp(mode, "kill_before")) {
        logev(*n, "KILL-BEFORE", path, 0);
        die();
    }
    if (!strcmp(mode, "eio")) { logev(*n, "EIO", path, 0); errno = EIO; return 1; }
    if (!strcmp(mode, "enospc")) { logev(*n, "ENOSPC", path, 0); errno = ENOSPC; return 1; }
    if (!strcmp(mode, "exdev")) { logev(*n, "EXDEV", path, 0); errno = EXDEV; return 1; }
    if (!strcmp(mode, "eacces")) { logev(*n, "EACCES", path, 0); errno = EACCES; return 1; }
    if (!strcmp(mode, "eintr")) { logev(*n, "EINTR", path, 0); errno = EINTR; return 1; }
    if (!strncmp(mode, "short", 5)) return 2;
    (void)op;
    return 0;
}

static long after(long n, const char *op, const char *path, long res) {
    int e = errno;
    logev(n, op, path, res);
    if ((n == at || n == at2) && !strcmp(mode, "kill_after")) {
        logev(n, "KILL-AFTER", path, 0);
        die();
    }
    delay();
    errno = e;
    return res;
}

static int do_open(int dfd, const char *p, int flags, mode_t m, const char *op) {
    char a[PATH_MAX];
    int in = under(dfd, p, a);
    int mut = in && ((flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY);
    int rd = reads && in && !mut && !(flags & (O_DIRECTORY | O_PATH));
    long n = 0;
    if (mut || rd) {
        int d = before(&n, rd ? "open-read" : op, a);
        if (d == 1) return -1;
    }
    int fd = (int)syscall(SYS_openat, dfd, p, flags, m);
    if (fd >= 0 && fd < 4096) {
        tracked[fd] = (char)(mut ? 1 : rd ? 2 : 0);
        if (mut || rd) snprintf(names[fd], sizeof names[fd], "%s", a + (strlen(a) > 60 ? strlen(a) - 60 : 0));
    }
    if (mut || rd) after(n, rd ? "open-read" : op, a, fd);
    return fd;
}

#define MODE_ARG                                    \
    mode_t m = 0;                                   \
    if (flags & (O_CREAT | O_TMPFILE)) {            \
        va_list ap;                                 \
        va_start(ap, flags);                        \
        m = va_arg(ap, mode_t);                     \
        va_end(ap);                                 \
    }

int open(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags, m, "open"); }
int open64(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m, "open"); }
int openat(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags, m, "open"); }
int openat64(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags | O_LARGEFILE, m, "open"); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m, "open"); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m, "open"); }

int close(int fd) {
    if (fd >= 0 && fd < 4096) tracked[fd] = 0;
    if (fd == logfd && fd >= 0) return 0;
    return (int)syscall(SYS_close, fd);
}

static int is_tracked(int fd) { return fd >= 0 && fd < 4096 && tracked[fd]; }

ssize_t read(int fd, void *b, size_t len) {
    if (!reads || fd < 0 || fd >= 4096 || !tracked[fd]) return syscall(SYS_read, fd, b, len);
    long n;
    int d = before(&n, "read", names[fd]);
    if (d == 1) return -1;
    if (d == 2) {
        if (len > 3) len = 3;
        ssize_t r = syscall(SYS_read, fd, b, len);
        return after(n, "read-short", names[fd], r);
    }
    return after(n, "read", names[fd], syscall(SYS_read, fd, b, len));
}

static ssize_t cut(long n, const char *path, ssize_t r) {
    if (!strcmp(mode, "short_kill")) {
        logev(n, "SHORT-KILL", path, r);
        die();
    }
    return r;
}

/* after a short write with short_enospc, every later write fails as on a full disk */
static int disk_full;

ssize_t write(int fd, const void *b, size_t len) {
    if (!is_tracked(fd)) return raw_write(fd, b, len);
    long n;
    if (disk_full) { errno = ENOSPC; return -1; }
    int d = before(&n, "write", names[fd]);
    if (d == 1) return -1;
    if (d == 2) {
        if (len > 1) len = len / 2;
        if (!strcmp(mode, "short_enospc")) disk_full = 1;
        ssize_t r = raw_write(fd, b, len);
        cut(n, names[fd], r);
        return after(n, "write-short", names[fd], r);
    }
    return after(n, "write", names[fd], raw_write(fd, b, len));
}

ssize_t writev(int fd, const struct iovec *iov, int k) {
    if (!is_tracked(fd)) return syscall(SYS_writev, fd, iov, k);
    long n;
    if (disk_full) { errno = ENOSPC; return -1; }
    int d = before(&n, "writev", names[fd]);
    if (d == 1) return -1;
    if (d == 2 && k > 0) {
        struct iovec one = iov[0];
        if (one.iov_len > 1) one.iov_len /= 2;
        if (!strcmp(mode, "short_enospc")) disk_full = 1;
        ssize_t r = syscall(SYS_writev, fd, &one, 1);
        cut(n, names[fd], r);
        return after(n, "writev-short", names[fd], r);
    }
    return after(n, "writev", names[fd], syscall(SYS_writev, fd, iov, k));
}

ssize_t pwrite64(int fd, const void *b, size_t len, off64_t o) {
    if (!is_tracked(fd)) return syscall(SYS_pwrite64, fd, b, len, o);
    long n;
    if (disk_full) { errno = ENOSPC; return -1; }
    int d = before(&n, "pwrite", names[fd]);
    if (d == 1) return -1;
    if (d == 2) {
        if (len > 1) len = len / 2;
        if (!strcmp(mode, "short_enospc")) disk_full = 1;
        ssize_t r = syscall(SYS_pwrite64, fd, b, len, o);
        cut(n, names[fd], r);
        return after(n, "pwrite-short", names[fd], r);
    }
    return after(n, "pwrite", names[fd], syscall(SYS_pwrite64, fd, b, len, o));
}
ssize_t pwrite(int fd, const void *b, size_t len, off_t o) { return pwrite64(fd, b, len, o); }

static ssize_t xfer(int out, const char *op, long nr, long a1, long a2, long a3, long a4, long a5, long a6) {
    long n;
    if (disk_full) { errno = ENOSPC; return -1; }
    int d = before(&n, op, names[out]);
    if (d == 1) return -1;
    return after(n, op, names[out], syscall(nr, a1, a2, a3, a4, a5, a6));
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t l, unsigned f) {
    if (!is_tracked(o)) return syscall(SYS_copy_file_range, i, io, o, oo, l, f);
    return xfer(o, "copy", SYS_copy_file_range, i, (long)io, o, (long)oo, (long)l, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t c) {
    if (!is_tracked(o)) return syscall(SYS_sendfile, o, i, off, c);
    return xfer(o, "copy", SYS_sendfile, o, i, (long)off, (long)c, 0, 0);
}
ssize_t sendfile(int o, int i, off_t *off, size_t c) { return sendfile64(o, i, off, c); }

#define FDOP(name, op, call)                        \
    {                                               \
        if (!is_tracked(fd)) return (int)(call);    \
        long n;                                     \
        if (before(&n, op, names[fd]) == 1) return -1; \
        return (int)after(n, op, names[fd], (call)); \
    }
int ftruncate64(int fd, off64_t l) FDOP(ftruncate64, "ftruncate", syscall(SYS_ftruncate, fd, l))
int ftruncate(int fd, off_t l) FDOP(ftruncate, "ftruncate", syscall(SYS_ftruncate, fd, l))
int fsync(int fd) FDOP(fsync, "fsync", syscall(SYS_fsync, fd))
int fdatasync(int fd) FDOP(fdatasync, "fdatasync", syscall(SYS_fdatasync, fd))
int fchmod(int fd, mode_t m) FDOP(fchmod, "fchmod", syscall(SYS_fchmod, fd, m))
int posix_fallocate64(int fd, off64_t a, off64_t b) {
    if (is_tracked(fd)) { long n; if (before(&n, "fallocate", names[fd]) == 1) return errno;
        after(n, "fallocate", names[fd], 0); }
    return syscall(SYS_fallocate, fd, 0, a, b) < 0 ? errno : 0;
}

static int do_path(const char *op, int d1, const char *p1, int d2, const char *p2, long nr, long a1, long a2,
                   long a3, long a4, long a5) {
    char x[PATH_MAX], y[PATH_MAX];
    int in = under(d1, p1, x);
    if (!in && p2 && under(d2, p2, y)) {
        in = 1;
        memcpy(x, y, sizeof x);
    }
    if (!in) return (int)syscall(nr, a1, a2, a3, a4, a5);
    long n;
    if (before(&n, op, x) == 1) return -1;
    return (int)after(n, op, x, syscall(nr, a1, a2, a3, a4, a5));
}
int rename(const char *a, const char *b) {
    return do_path("rename", AT_FDCWD, a, AT_FDCWD, b, SYS_renameat2, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0);
}
int renameat(int d1, const char *a, int d2, const char *b) {
    return do_path("rename", d1, a, d2, b, SYS_renameat2, d1, (long)a, d2, (long)b, 0);
}
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) {
    return do_path("rename", d1, a, d2, b, SYS_renameat2, d1, (long)a, d2, (long)b, f);
}
int link(const char *a, const char *b) {
    return do_path("link", AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0);
}
int linkat(int d1, const char *a, int d2, const char *b, int f) {
    return do_path("link", d1, a, d2, b, SYS_linkat, d1, (long)a, d2, (long)b, f);
}
int symlink(const char *a, const char *b) {
    return do_path("symlink", AT_FDCWD, b, 0, 0, SYS_symlinkat, (long)a, AT_FDCWD, (long)b, 0, 0);
}
int unlink(const char *a) { return do_path("unlink", AT_FDCWD, a, 0, 0, SYS_unlinkat, AT_FDCWD, (long)a, 0, 0, 0); }
int unlinkat(int d, const char *a, int f) { return do_path("unlink", d, a, 0, 0, SYS_unlinkat, d, (long)a, f, 0, 0); }
int rmdir(const char *a) { return do_path("rmdir", AT_FDCWD, a, 0, 0, SYS_unlinkat, AT_FDCWD, (long)a, AT_REMOVEDIR, 0, 0); }
int mkdir(const char *a, mode_t m) { return do_path("mkdir", AT_FDCWD, a, 0, 0, SYS_mkdirat, AT_FDCWD, (long)a, m, 0, 0); }
int mkdirat(int d, const char *a, mode_t m) { return do_path("mkdir", d, a, 0, 0, SYS_mkdirat, d, (long)a, m, 0, 0); }
int chmod(const char *a, mode_t m) { return do_path("chmod", AT_FDCWD, a, 0, 0, SYS_fchmodat, AT_FDCWD, (long)a, m, 0, 0); }
int truncate64(const char *a, off64_t l) { return do_path("truncate", AT_FDCWD, a, 0, 0, SYS_truncate, (long)a, l, 0, 0, 0); }
int truncate(const char *a, off_t l) { return truncate64(a, l); }

ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!use_rand) return syscall(SYS_getrandom, b, n, f);
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(sm(&rseed) >> 24);
    return (ssize_t)n;
}

/* every process in a container may have the same id */
pid_t getpid(void) {
    const char *e = getenv("VSHIM_PID");
    return e ? (pid_t)atol(e) : (pid_t)syscall(SYS_getpid);
}
