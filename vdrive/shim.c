// LD_PRELOAD shim for the concrete runs of the command-line tool: counts, logs and
// disturbs the file operations on files below the current directory (SHIM_ROOT) and on
// the standard streams.  SHIM_MODE: none | fail:N:ERRNO | kill:N | short:K | eof:K
//   fail   the Nth operation fails with ERRNO
//   kill   the process ends at the Nth operation, before it takes effect
//   short  reads and writes move at most K bytes
//   eof    reads of one file end after K bytes
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

static int ready, logfd = -1;
static long count, at = -1, err, shortk = -1, eofk = -1, killat = -1, got;
static char root[PATH_MAX];
static void init(void) {
    if (ready) return;
    ready = 1;
    const char *r = getenv("SHIM_ROOT"), *l = getenv("SHIM_LOG"), *m = getenv("SHIM_MODE");
    if (!r) return;
    strncpy(root, r, sizeof root - 1);
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (!m) return;
    if (sscanf(m, "fail:%ld:%ld", &at, &err) == 2) return;
    if (sscanf(m, "kill:%ld", &killat) == 1) return;
    if (sscanf(m, "short:%ld", &shortk) == 1) return;
    if (sscanf(m, "eof:%ld", &eofk) == 1) return;
}
static int mine_path(const char *p) { return root[0] && p && p[0] && (p[0] != '/' || !strncmp(p, root, strlen(root))); }
static int mine_fd(int fd) {
    if (!root[0] || fd < 0) return 0;
    if (fd <= 1) return 1;
    if (fd == 2) return 0;
    char a[64], b[PATH_MAX];
    snprintf(a, sizeof a, "/proc/self/fd/%d", fd);
    long n = syscall(SYS_readlinkat, AT_FDCWD, a, b, sizeof b - 1);
    if (n <= 0) return 0;
    b[n] = 0;
    return !strncmp(b, root, strlen(root));
}
// 1: fail now (errno is set)
static int op(const char *name, const char *path, int fd, long size) {
    long n = ++count;
    if (logfd >= 0) {
        char t[PATH_MAX + 100];
        int k = snprintf(t, sizeof t, "%ld %s %s %d %ld\n", n, name, path ? path : "-", fd, size);
        syscall(SYS_write, logfd, t, (size_t)k);
    }
    if (n == killat) syscall(SYS_exit_group, 77);
    if (n == at) { errno = (int)err; return 1; }
    return 0;
}
static long ret(long r) { return r; }

ssize_t read(int fd, void *b, size_t n) {
    init();
    if (mine_fd(fd)) {
        if (op(fd == 0 ? "rstdin" : "read", 0, fd, (long)n)) return -1;
        if (shortk >= 0 && (long)n > shortk) n = (size_t)shortk;
        if (eofk >= 0 && fd > 2) { if (got >= eofk) return 0; if ((long)n > eofk - got) n = (size_t)(eofk - got); }
    } else return ret(syscall(SYS_read, fd, b, n));
    long r = syscall(SYS_read, fd, b, n);
    if (r > 0 && fd > 2) got += r;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    init();
    if (mine_fd(fd)) {
        if (op(fd == 1 ? "wstdout" : "write", 0, fd, (long)n)) return -1;
        if (shortk >= 0 && (long)n > shortk) n = (size_t)shortk;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    init();
    if (mine_fd(fd) && op(fd == 1 ? "wstdout" : "write", 0, fd, c)) return -1;
    return syscall(SYS_writev, fd, v, c);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    init();
    if (mine_fd(fd) && op("read", 0, fd, (long)n)) return -1;
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    init();
    if (mine_fd(fd) && op("write", 0, fd, (long)n)) return -1;
    return syscall(SYS_pwrite64, fd, b, n, o);
}
off64_t lseek64(int fd, off64_t o, int w) {
    init();
    if (mine_fd(fd) && op("lseek", 0, fd, (long)o)) return -1;
    if (eofk >= 0) got = 0;
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
static int do_open(int dir, const char *p, int f, mode_t m) {
    init();
    if (mine_path(p) && op((f & O_ACCMODE) == O_RDONLY ? "openr" : "openw", p, -1, f)) return -1;
    return (int)syscall(SYS_openat, dir, p, f, m);
}
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, f, m); }
int open(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, f, m); }
int openat64(int d, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(d, p, f, m); }
int openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, int); va_end(a); return do_open(d, p, f, m); }
// under another name: the header promises non-null, and the standard library probes with null
int my_statx(int d, const char *p, int f, unsigned m, struct statx *s) __asm__("statx");
int my_statx(int d, const char *p, int f, unsigned m, struct statx *s) {
    init();
    if (!p) return (int)syscall(SYS_statx, d, p, f, m, s);
    if (p && p[0]) { if (mine_path(p) && op("stat", p, -1, 0)) return -1; }
    else if (mine_fd(d) && op("fstat", 0, d, 0)) return -1;
    return (int)syscall(SYS_statx, d, p, f, m, s);
}
int fstat64(int fd, struct stat64 *s) {
    init();
    if (mine_fd(fd) && op("fstat", 0, fd, 0)) return -1;
    return (int)syscall(SYS_fstat, fd, s);
}
int stat64(const char *p, struct stat64 *s) {
    init();
    if (mine_path(p) && op("stat", p, -1, 0)) return -1;
    return (int)syscall(SYS_stat, p, s);
}
int unlink(const char *p) {
    init();
    if (mine_path(p) && op("unlink", p, -1, 0)) return -1;
    return (int)syscall(SYS_unlink, p);
}
int unlinkat(int d, const char *p, int f) {
    init();
    if (mine_path(p) && op("unlink", p, -1, 0)) return -1;
    return (int)syscall(SYS_unlinkat, d, p, f);
}
int rename(const char *a, const char *b) {
    init();
    if (mine_path(a) && op("rename", a, -1, 0)) return -1;
    return (int)syscall(SYS_rename, a, b);
}
int ftruncate64(int fd, off64_t n) {
    init();
    if (mine_fd(fd) && op("ftruncate", 0, fd, (long)n)) return -1;
    return (int)syscall(SYS_ftruncate, fd, n);
}
int fsync(int fd) { init(); if (mine_fd(fd) && op("fsync", 0, fd, 0)) return -1; return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { init(); if (mine_fd(fd) && op("fsync", 0, fd, 0)) return -1; return (int)syscall(SYS_fdatasync, fd); }
