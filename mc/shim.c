/* Interposes the file system calls of the process under test (LD_PRELOAD).
   Calls that touch files below an armed prefix are numbered; at a chosen one
   the process dies, or the call fails, or is cut short. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#undef open
#undef open64
#undef openat
#undef openat64

enum { OFF, COUNT, CRASH, FAIL, FAILALL, SHORT };
enum { K_OPENW = 1, K_WRITE = 2, K_RENAME = 4, K_UNLINK = 8, K_OPENR = 16, K_READ = 32, K_CLOSE = 64, K_OTHER = 128 };

static char prefix[4096];
static int mode, at, err, kinds, hit;
static long torn;
static int n_events;
static int ev_kind[4096];
static long ev_len[4096];
static char ev_path[4096][96];

void kz_arm(const char *p, int m, int k, int e, long t, int mask) {
  strncpy(prefix, p, sizeof prefix - 1);
  mode = m; at = k; err = e; torn = t; kinds = mask; hit = 0; n_events = 0;
}
int kz_disarm(void) { mode = OFF; return n_events; }
int kz_hit(void) { return hit; }
int kz_kind(int i) { return ev_kind[i]; }
long kz_len(int i) { return ev_len[i]; }
const char *kz_path(int i) { return ev_path[i]; }

static int inside(const char *p) {
  char buf[8192];
  size_t l = strlen(prefix);
  if (mode == OFF || !p) return 0;
  if (p[0] != '/') {
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    snprintf(buf, sizeof buf, "%s/%s", cwd, p);
    p = buf;
  }
  return strncmp(p, prefix, l) == 0;
}
static int fdpath(int fd, char *buf, size_t n) {
  char l[64];
  int saved = errno;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t r = readlink(l, buf, n - 1);
  errno = saved;
  if (r < 0) return 0;
  buf[r] = 0;
  return 1;
}
/* 0: go on; 1: fail with errno set; 2: cut short (or torn, then die) */
static int event(int kind, const char *path, long len) {
  if (mode == OFF || !(kinds & kind)) return 0;
  int i = n_events++;
  if (i < 4096) {
    const char *b = path ? strrchr(path, '/') : 0;
    ev_kind[i] = kind; ev_len[i] = len;
    strncpy(ev_path[i], b ? b + 1 : "", 95);
  }
  if (mode == COUNT || i < at) return 0;
  if (mode == CRASH) {
    if (i != at) return 0;
    if (torn > 0 && (kind & K_WRITE)) { hit = 1; return 2; }
    _exit(77);
  }
  if (mode == FAIL && i == at) { hit = 1; errno = err; return 1; }
  if (mode == FAILALL) { hit = 1; errno = err; return 1; }
  if (mode == SHORT && (kind & K_WRITE)) {
    hit = 1;
    if (i == at) return 2;
    errno = err;
    return 1;
  }
  return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int okind(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? K_OPENW : K_OPENR; }

#define OPEN(NAME) \
int NAME(const char *p, int flags, ...) { \
  REAL(int, #NAME, const char *, int, ...); \
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
  if (!(flags & O_DIRECTORY) && inside(p) && event(okind(flags), p, 0)) return -1; \
  return real(p, flags, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
int NAME(int d, const char *p, int flags, ...) { \
  REAL(int, #NAME, int, const char *, int, ...); \
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
  char buf[8192]; const char *q = p; \
  if (mode != OFF && p[0] != '/' && d != AT_FDCWD && fdpath(d, buf, 4096)) { strcat(buf, "/"); strncat(buf, p, 4000); q = buf; } \
  if (!(flags & O_DIRECTORY) && inside(q) && event(okind(flags), q, 0)) return -1; \
  return real(d, p, flags, m); }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write", int, const void *, size_t);
  char path[4096];
  if (mode != OFF && fdpath(fd, path, sizeof path) && inside(path)) {
    int e = event(K_WRITE, path, n);
    if (e == 1) return -1;
    if (e == 2) {
      ssize_t r = real(fd, b, (size_t)torn < n ? (size_t)torn : n);
      if (mode == CRASH) _exit(77);
      return r;
    }
  }
  return real(fd, b, n);
}
#define PW(NAME) \
ssize_t NAME(int fd, const void *b, size_t n, off_t o) { \
  REAL(ssize_t, #NAME, int, const void *, size_t, off_t); \
  char path[4096]; \
  if (mode != OFF && fdpath(fd, path, sizeof path) && inside(path)) { \
    int e = event(K_WRITE, path, n); \
    if (e == 1) return -1; \
    if (e == 2) { ssize_t r = real(fd, b, (size_t)torn < n ? (size_t)torn : n, o); if (mode == CRASH) _exit(77); return r; } } \
  return real(fd, b, n, o); }
PW(pwrite)
PW(pwrite64)
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, "writev", int, const struct iovec *, int);
  char path[4096];
  if (mode != OFF && fdpath(fd, path, sizeof path) && inside(path) && event(K_WRITE, path, 0)) { if (mode == CRASH) _exit(77); return -1; }
  return real(fd, v, n);
}
#define SENDF(NAME) \
ssize_t NAME(int o, int i, off_t *off, size_t n) { \
  REAL(ssize_t, #NAME, int, int, off_t *, size_t); \
  char path[4096]; \
  if (mode != OFF && fdpath(o, path, sizeof path) && inside(path)) { \
    int e = event(K_WRITE, path, n); \
    if (e == 1) return -1; \
    if (e == 2) { ssize_t r = real(o, i, off, (size_t)torn < n ? (size_t)torn : n); if (mode == CRASH) _exit(77); return r; } } \
  return real(o, i, off, n); }
SENDF(sendfile)
SENDF(sendfile64)
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
  char path[4096];
  if (mode != OFF && fdpath(o, path, sizeof path) && inside(path) && event(K_WRITE, path, n)) { if (mode == CRASH) _exit(77); return -1; }
  return real(i, io, o, oo, n, f);
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, "read", int, void *, size_t);
  char path[4096];
  if (mode != OFF && (kinds & K_READ) && fdpath(fd, path, sizeof path) && inside(path) && event(K_READ, path, n)) return -1;
  return real(fd, b, n);
}
int rename(const char *a, const char *b) {
  REAL(int, "rename", const char *, const char *);
  if ((inside(a) || inside(b)) && event(K_RENAME, b, 0)) return -1;
  return real(a, b);
}
int renameat(int d, const char *a, int e, const char *b) {
  REAL(int, "renameat", int, const char *, int, const char *);
  if ((inside(a) || inside(b)) && event(K_RENAME, b, 0)) return -1;
  return real(d, a, e, b);
}
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
  REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
  if ((inside(a) || inside(b)) && event(K_RENAME, b, 0)) return -1;
  return real(d, a, e, b, f);
}
int unlink(const char *p) {
  REAL(int, "unlink", const char *);
  if (inside(p) && event(K_UNLINK, p, 0)) return -1;
  return real(p);
}
int unlinkat(int d, const char *p, int f) {
  REAL(int, "unlinkat", int, const char *, int);
  char buf[8192]; const char *q = p;
  if (mode != OFF && p[0] != '/' && d != AT_FDCWD && fdpath(d, buf, 4096)) { strcat(buf, "/"); strncat(buf, p, 4000); q = buf; }
  if (inside(q) && event(K_UNLINK, q, 0)) return -1;
  return real(d, p, f);
}
int remove(const char *p) {
  REAL(int, "remove", const char *);
  if (inside(p) && event(K_UNLINK, p, 0)) return -1;
  return real(p);
}
int link(const char *a, const char *b) {
  REAL(int, "link", const char *, const char *);
  if (inside(b) && event(K_RENAME, b, 0)) return -1;
  return real(a, b);
}
int linkat(int d, const char *a, int e, const char *b, int f) {
  REAL(int, "linkat", int, const char *, int, const char *, int);
  if (inside(b) && event(K_RENAME, b, 0)) return -1;
  return real(d, a, e, b, f);
}
int symlink(const char *a, const char *b) {
  REAL(int, "symlink", const char *, const char *);
  if (inside(b) && event(K_RENAME, b, 0)) return -1;
  return real(a, b);
}
int mkdir(const char *p, mode_t m) {
  REAL(int, "mkdir", const char *, mode_t);
  if (inside(p) && event(K_OTHER, p, 0)) return -1;
  return real(p, m);
}
int rmdir(const char *p) {
  REAL(int, "rmdir", const char *);
  if (inside(p) && event(K_UNLINK, p, 0)) return -1;
  return real(p);
}
int chmod(const char *p, mode_t m) {
  REAL(int, "chmod", const char *, mode_t);
  if (inside(p) && event(K_OTHER, p, 0)) return -1;
  return real(p, m);
}
#define TRUNC(NAME) \
int NAME(const char *p, off_t n) { \
  REAL(int, #NAME, const char *, off_t); \
  if (inside(p) && event(K_OPENW, p, 0)) return -1; \
  return real(p, n); }
TRUNC(truncate)
TRUNC(truncate64)
#define FTRUNC(NAME) \
int NAME(int fd, off_t n) { \
  REAL(int, #NAME, int, off_t); \
  char path[4096]; \
  if (mode != OFF && fdpath(fd, path, sizeof path) && inside(path) && event(K_OPENW, path, 0)) return -1; \
  return real(fd, n); }
FTRUNC(ftruncate)
FTRUNC(ftruncate64)
int fsync(int fd) {
  REAL(int, "fsync", int);
  char path[4096];
  if (mode != OFF && fdpath(fd, path, sizeof path) && inside(path) && event(K_OTHER, path, 0)) return -1;
  return real(fd);
}
int close(int fd) {
  REAL(int, "close", int);
  char path[4096];
  if (mode != OFF && (kinds & K_CLOSE) && fdpath(fd, path, sizeof path) && inside(path) && (fcntl(fd, F_GETFL) & (O_WRONLY | O_RDWR))) {
    if (event(K_CLOSE, path, 0)) { int e = errno; real(fd); errno = e; return -1; }
  }
  return real(fd);
}
