/* Counts, fails or dies at the k-th file operation on paths under a prefix (and on descriptors opened there). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>

enum { M_ERR = 1, M_DIE = 2, M_TORN_DIE = 3, M_SHORT = 4, M_TORN_ERR = 5, M_DONE_ERR = 6, M_DONE_DIE = 7, M_STOP = 8 };
#define NF 8192
#define NLOG 256
static char prefix[4096];
static size_t plen;
static int armed, count;
static struct { int k, mode, err; } plan[4];
static int nplan;
static char mine[NF];
static const char *names[NLOG];

void ffs_arm(const char *p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); count = 0; nplan = 0; armed = 1; memset(mine, 0, sizeof mine); }
void ffs_fault(int k, int mode, int err) { if (nplan < 4) { plan[nplan].k = k; plan[nplan].mode = mode; plan[nplan].err = err; nplan++; } }
void ffs_disarm(void) { armed = 0; }
int ffs_count(void) { return count; }
const char *ffs_name(int i) { return i < count && i < NLOG ? names[i] : ""; }

static int under(const char *p) { return armed && p && strncmp(p, prefix, plen) == 0; }
static int ours(int fd) { return armed && fd >= 0 && fd < NF && mine[fd]; }
static int hit(const char *name, int *err) {
  int i, k = ++count;
  if (k <= NLOG) names[k - 1] = name;
  for (i = 0; i < nplan; i++)
    if (plan[i].k == k) {
      *err = plan[i].err;
      if (plan[i].mode == M_DIE) _exit(137);
      if (plan[i].mode == M_STOP) { raise(SIGSTOP); return 0; }
      return plan[i].mode;
    }
  return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
#define AFTER(m, r, e, fail) do { if (m == M_DONE_DIE || m == M_TORN_DIE) _exit(137); if (m == M_DONE_ERR || m == M_TORN_ERR) { errno = e; r = fail; } } while (0)
#define SIMPLE(cond, name, call, fail) \
  if (!(cond)) return call; \
  { int e = 0, m = hit(name, &e); if (m == M_ERR) { errno = e; return fail; } \
    __typeof__(call) r = call; AFTER(m, r, e, fail); return r; }

static int opened(int fd, int tracked) { if (tracked && fd >= 0 && fd < NF) mine[fd] = 1; return fd; }
static int do_open(int (*real)(const char *, int, ...), const char *p, int fl, mode_t md) {
  int e = 0, m, r;
  if (!under(p)) { r = real(p, fl, md); if (r >= 0 && r < NF) mine[r] = 0; return r; }
  m = hit((fl & (O_WRONLY | O_RDWR)) ? "open-w" : "open-r", &e);
  if (m == M_ERR) { errno = e; return -1; }
  r = real(p, fl, md);
  if (m == M_DONE_DIE || m == M_TORN_DIE) _exit(137);
  return opened(r, 1);
}
#define MODE(fl) mode_t md = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); md = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { MODE(fl); REAL(int, "open", const char *, int, ...); return do_open(real, p, fl, md); }
int open64(const char *p, int fl, ...) { MODE(fl); REAL(int, "open64", const char *, int, ...); return do_open(real, p, fl, md); }
int creat(const char *p, mode_t md) { REAL(int, "open", const char *, int, ...); return do_open(real, p, O_CREAT | O_WRONLY | O_TRUNC, md); }
int creat64(const char *p, mode_t md) { REAL(int, "open64", const char *, int, ...); return do_open(real, p, O_CREAT | O_WRONLY | O_TRUNC, md); }
static int do_openat(int (*real)(int, const char *, int, ...), int d, const char *p, int fl, mode_t md) {
  int e = 0, m, r;
  if (!(under(p) || (p && p[0] != '/' && ours(d)))) { r = real(d, p, fl, md); if (r >= 0 && r < NF) mine[r] = 0; return r; }
  m = hit((fl & (O_WRONLY | O_RDWR)) ? "open-w" : "open-r", &e);
  if (m == M_ERR) { errno = e; return -1; }
  r = real(d, p, fl, md);
  if (m == M_DONE_DIE || m == M_TORN_DIE) _exit(137);
  return opened(r, 1);
}
int openat(int d, const char *p, int fl, ...) { MODE(fl); REAL(int, "openat", int, const char *, int, ...); return do_openat(real, d, p, fl, md); }
int openat64(int d, const char *p, int fl, ...) { MODE(fl); REAL(int, "openat64", int, const char *, int, ...); return do_openat(real, d, p, fl, md); }
FILE *fopen64(const char *p, const char *md) { REAL(FILE *, "fopen64", const char *, const char *); SIMPLE(under(p), "fopen", real(p, md), NULL) }
int close(int fd) {
  REAL(int, "close", int);
  int e = 0, m, r, o = ours(fd);
  if (!o) return real(fd);
  m = hit("close", &e);
  mine[fd] = 0;
  r = real(fd);
  if (m == M_DONE_DIE || m == M_TORN_DIE) _exit(137);
  if (m == M_ERR || m == M_DONE_ERR || m == M_TORN_ERR) { errno = e; return -1; }
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write", int, const void *, size_t);
  int e = 0, m; ssize_t r;
  if (!ours(fd)) return real(fd, b, n);
  m = hit("write", &e);
  if (m == M_ERR) { errno = e; return -1; }
  if ((m == M_TORN_DIE || m == M_TORN_ERR || m == M_SHORT) && n > 1) n = n / 2;
  else if (m == M_TORN_DIE || m == M_TORN_ERR) n = 0;
  r = n ? real(fd, b, n) : 0;
  AFTER(m, r, e, -1);
  return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); SIMPLE(ours(fd), "write", real(fd, b, n, o), -1) }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, "writev", int, const struct iovec *, int); SIMPLE(ours(fd), "write", real(fd, v, n), -1) }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t); SIMPLE(ours(o), "write", real(o, i, f, n), -1) }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { REAL(ssize_t, "sendfile", int, int, off_t *, size_t); SIMPLE(ours(o), "write", real(o, i, f, n), -1) }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); SIMPLE(ours(o), "write", real(i, a, o, b, n, f), -1) }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); SIMPLE(under(a) || under(b), "rename", real(a, b), -1) }
int renameat(int d, const char *a, int g, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); SIMPLE(under(a) || under(b), "rename", real(d, a, g, b), -1) }
int renameat2(int d, const char *a, int g, const char *b, unsigned f) { REAL(int, "renameat2", int, const char *, int, const char *, unsigned); SIMPLE(under(a) || under(b), "rename", real(d, a, g, b, f), -1) }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); SIMPLE(under(a) || under(b), "link", real(a, b), -1) }
int linkat(int d, const char *a, int g, const char *b, int f) { REAL(int, "linkat", int, const char *, int, const char *, int); SIMPLE(under(a) || under(b), "link", real(d, a, g, b, f), -1) }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); SIMPLE(under(b), "symlink", real(a, b), -1) }
int unlink(const char *p) { REAL(int, "unlink", const char *); SIMPLE(under(p), "unlink", real(p), -1) }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); SIMPLE(under(p), "unlink", real(d, p, f), -1) }
int remove(const char *p) { REAL(int, "remove", const char *); SIMPLE(under(p), "unlink", real(p), -1) }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t); SIMPLE(under(p), "truncate", real(p, n), -1) }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); SIMPLE(ours(fd), "truncate", real(fd, n), -1) }
int fsync(int fd) { REAL(int, "fsync", int); SIMPLE(ours(fd), "fsync", real(fd), -1) }
int fdatasync(int fd) { REAL(int, "fdatasync", int); SIMPLE(ours(fd), "fsync", real(fd), -1) }
int mkdir(const char *p, mode_t m0) { REAL(int, "mkdir", const char *, mode_t); SIMPLE(under(p), "mkdir", real(p, m0), -1) }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); SIMPLE(under(p), "rmdir", real(p), -1) }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { REAL(int, "utimensat", int, const char *, const struct timespec *, int); SIMPLE(under(p), "utime", real(d, p, t, f), -1) }
int futimens(int fd, const struct timespec t[2]) { REAL(int, "futimens", int, const struct timespec *); SIMPLE(ours(fd), "utime", real(fd, t), -1) }
