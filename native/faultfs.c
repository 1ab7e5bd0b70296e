/* Interposer for the file-system calls of a process (LD_PRELOAD).
 *
 * Counts every call that changes files below a given directory, logs it, and can make the process die
 * before/in the middle of/after the k-th of them, make it fail, or interrupt it by a signal.
 * Disarmed (the default) it only forwards. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, COUNT = 1, CRASH_BEFORE = 2, CRASH_AFTER = 3, TORN = 4, FAIL = 5, FAIL_FOREVER = 6, SHORT = 7, INTR = 8, SHORT_FAIL = 9 };
#define MAXFD 4096

static int g_mode = OFF, g_err, g_logfd = -1, g_frac;
static long g_k = -1, g_n = 0, g_hit = 0;
static char g_prefix[PATH_MAX];
static char g_lastop[64];
static char track[MAXFD];

static void *real(const char *n) { return dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = real(#name)

int faultfs_present(void) { return 1; }
void faultfs_arm(const char *prefix, long k, int mode, int err, int logfd, int frac) {
  strncpy(g_prefix, prefix, PATH_MAX - 1);
  g_k = k; g_mode = mode; g_err = err; g_logfd = logfd; g_frac = frac; g_n = 0; g_hit = 0; g_lastop[0] = 0;
  memset(track, 0, sizeof track);
}
void faultfs_disarm(void) { g_mode = OFF; }
long faultfs_count(void) { return g_n; }
long faultfs_hit(void) { return g_hit; }
const char *faultfs_lastop(void) { return g_lastop; }

static int inside(int dirfd, const char *p, char *out) {
  char base[PATH_MAX] = "";
  if (p[0] != '/') {
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
           ssize_t n = readlink(l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
    snprintf(out, PATH_MAX, "%s/%s", base, p);
  } else snprintf(out, PATH_MAX, "%s", p);
  size_t n = strlen(g_prefix);
  return strncmp(out, g_prefix, n) == 0 && (out[n] == '/' || out[n] == 0);
}

static void wr(const void *b, size_t n) { while (n) { long r = syscall(SYS_write, g_logfd, b, n); if (r <= 0) return; b = (const char *)b + r; n -= r; } }
static void logop(const char *op, long ino, long off, long len, const char *p1, const char *p2, const void *data, size_t dlen) {
  if (g_logfd < 0) return;
  char h[256];
  int n = snprintf(h, sizeof h, "%s %ld %ld %ld %zu %zu %zu\n", op, ino, off, len, p1 ? strlen(p1) : 0, p2 ? strlen(p2) : 0, dlen);
  wr(h, n);
  if (p1) wr(p1, strlen(p1));
  if (p2) wr(p2, strlen(p2));
  if (dlen) wr(data, dlen);
}
static long inode(int fd) { struct stat s; return fstat(fd, &s) ? -1 : (long)s.st_ino; }
static int isdir(int fd) { struct stat s; return !fstat(fd, &s) && S_ISDIR(s.st_mode); }

/* returns 1 if the call must fail now with errno set; may not return */
static int before(const char *op) {
  long i = g_n++;
  if (g_mode == COUNT) return 0;
  int iswrite = !strncmp(op, "write", 5);
  if (g_mode == FAIL_FOREVER && i >= g_k) { g_hit++; snprintf(g_lastop, sizeof g_lastop, "%s", op); errno = g_err; return 1; }
  if (g_mode == SHORT_FAIL && i > g_k && iswrite) { g_hit++; errno = g_err; return 1; }
  if (i != g_k) return 0;
  g_hit++;
  snprintf(g_lastop, sizeof g_lastop, "%s", op);
  switch (g_mode) {
    case CRASH_BEFORE: syscall(SYS_exit_group, 77);
    case FAIL: errno = g_err; return 1;
    case INTR: raise(SIGINT); return 0;
    case TORN: if (!iswrite) syscall(SYS_exit_group, 77); return 0;
  }
  return 0;
}
static void after(void) { if (g_mode == CRASH_AFTER && g_n - 1 == g_k) syscall(SYS_exit_group, 77); }
/* number of bytes a (possibly torn or short) write may store */
static size_t cut(size_t n) {
  if (g_n - 1 == g_k && (g_mode == TORN || g_mode == SHORT || g_mode == SHORT_FAIL) && n > 1) {
    size_t m = g_frac == 0 ? 1 : g_frac == 2 ? n - 1 : n / 2;
    return m ? m : 1;
  }
  return n;
}
static void torn(void) { if (g_mode == TORN && g_n - 1 == g_k) syscall(SYS_exit_group, 77); }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char full[PATH_MAX];
  static int (*r)(int, const char *, int, ...);
  if (!r) r = real("openat");
  int wr_ = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (g_mode == OFF || !path || !inside(dirfd, path, full)) {
    int fd = r(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) track[fd] = 0;
    return fd;
  }
  if (!wr_) { int fd = r(dirfd, path, flags, mode); if (fd >= 0 && fd < MAXFD) track[fd] = 2; return fd; }
  if (before("open")) return -1;
  struct stat st;
  int existed = !fstatat(dirfd, path, &st, 0);
  int fd = r(dirfd, path, flags, mode);
  if (fd >= 0) {
    if (fd < MAXFD) track[fd] = 1;
    logop(existed ? ((flags & O_TRUNC) ? "trunc" : "open") : "create", inode(fd), 0, 0, full, 0, 0, 0);
  }
  after();
  return fd;
}
#define MODEARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODEARG return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODEARG return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODEARG return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODEARG return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int tracked(int fd) { return g_mode != OFF && fd >= 0 && fd < MAXFD && track[fd] == 1; }
static long curoff(int fd) {
  if (fcntl(fd, F_GETFL) & O_APPEND) { struct stat s; return fstat(fd, &s) ? 0 : (long)s.st_size; }
  return (long)lseek(fd, 0, SEEK_CUR);
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (!tracked(fd)) return r(fd, b, n);
  if (before("write")) return -1;
  long off = curoff(fd);
  size_t m = cut(n);
  ssize_t x = r(fd, b, m);
  if (x > 0) logop("write", inode(fd), off, x, 0, 0, b, x);
  torn(); after();
  return x;
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
  if (!tracked(fd)) return r(fd, b, n, o);
  if (before("write")) return -1;
  ssize_t x = r(fd, b, cut(n), o);
  if (x > 0) logop("write", inode(fd), o, x, 0, 0, b, x);
  torn(); after();
  return x;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!tracked(fd)) return r(fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t x = write(fd, v[i].iov_base, v[i].iov_len);
    if (x < 0) return tot ? tot : -1;
    tot += x;
    if ((size_t)x < v[i].iov_len) break;
  }
  return tot;
}
static ssize_t copyloop(int out, int in, off_t *off, size_t n) {
  static char buf[1 << 16];
  size_t want = n < sizeof buf ? n : sizeof buf;
  ssize_t got = off ? pread(in, buf, want, *off) : read(in, buf, want);
  if (got <= 0) return got;
  ssize_t x = write(out, buf, got);
  if (x > 0 && off) *off += x;
  if (x >= 0 && x < got && !off) lseek(in, x - got, SEEK_CUR);
  return x;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
  REAL(ssize_t, sendfile, int, int, off_t *, size_t);
  if (!tracked(out)) return r(out, in, off, n);
  return copyloop(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off_t *off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned);
  if (!tracked(out) || oo) return r(in, oi, out, oo, n, f);
  return copyloop(out, in, oi, n);
}
static int dosync(int fd, const char *name) {
  int (*r)(int) = real(name);
  if (g_mode == OFF || fd < 0 || fd >= MAXFD || !track[fd]) return r(fd);
  int d = isdir(fd);
  if (before(d ? "dirsync" : "fsync")) return -1;
  int x = r(fd);
  if (!x) logop(d ? "dirsync" : "fsync", inode(fd), 0, 0, 0, 0, 0, 0);
  after();
  return x;
}
int fsync(int fd) { return dosync(fd, "fsync"); }
int fdatasync(int fd) { return dosync(fd, "fdatasync"); }
int close(int fd) {
  REAL(int, close, int);
  if (!tracked(fd)) { if (fd >= 0 && fd < MAXFD) track[fd] = 0; return r(fd); }
  int bad = before("close");
  int e = errno;
  track[fd] = 0;
  int x = r(fd);
  if (bad) { errno = e; return -1; }
  after();
  return x;
}
static int do_trunc(int fd, off_t n) {
  REAL(int, ftruncate, int, off_t);
  if (!tracked(fd)) return r(fd, n);
  if (before("ftruncate")) return -1;
  int x = r(fd, n);
  if (!x) logop("ftruncate", inode(fd), n, 0, 0, 0, 0, 0);
  after();
  return x;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  static int (*r)(int, const char *, int, const char *, unsigned);
  if (!r) r = real("renameat2");
  char f1[PATH_MAX], f2[PATH_MAX];
  if (g_mode == OFF) return r(d1, a, d2, b, fl);
  int i1 = inside(d1, a, f1), i2 = inside(d2, b, f2);
  if (!i1 && !i2) return r(d1, a, d2, b, fl);
  if (before("rename")) return -1;
  int x = r(d1, a, d2, b, fl);
  if (!x) logop("rename", 0, 0, 0, f1, f2, 0, 0);
  after();
  return x;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
static int do_unlink(int d, const char *p, int fl) {
  static int (*r)(int, const char *, int);
  if (!r) r = real("unlinkat");
  char f[PATH_MAX];
  if (g_mode == OFF || !inside(d, p, f)) return r(d, p, fl);
  if (before("unlink")) return -1;
  int x = r(d, p, fl);
  if (!x) logop("unlink", 0, 0, 0, f, 0, 0, 0);
  after();
  return x;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int remove(const char *p) {
  REAL(int, remove, const char *);
  char f[PATH_MAX];
  if (g_mode == OFF || !inside(AT_FDCWD, p, f)) return r(p);
  return do_unlink(AT_FDCWD, p, 0);
}
static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
  static int (*r)(int, const char *, int, const char *, int);
  if (!r) r = real("linkat");
  char f1[PATH_MAX], f2[PATH_MAX];
  if (g_mode == OFF || (inside(d1, a, f1) + 2 * inside(d2, b, f2)) == 0) return r(d1, a, d2, b, fl);
  if (before("link")) return -1;
  int x = r(d1, a, d2, b, fl);
  if (!x) logop("link", 0, 0, 0, f1, f2, 0, 0);
  after();
  return x;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return do_link(d1, a, d2, b, fl); }
int mkdir(const char *p, mode_t m) {
  REAL(int, mkdir, const char *, mode_t);
  char f[PATH_MAX];
  if (g_mode == OFF || !inside(AT_FDCWD, p, f)) return r(p, m);
  struct stat st;
  if (!stat(p, &st)) return r(p, m);         /* exists: no change */
  if (before("mkdir")) return -1;
  int x = r(p, m);
  if (!x) logop("mkdir", 0, 0, 0, f, 0, 0, 0);
  after();
  return x;
}
