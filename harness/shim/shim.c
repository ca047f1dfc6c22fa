// Preloaded into the real `vimwiki` binary. Counts the operations that change
// something (opening for writing, write, mkdir, unlink, rename) under VW_ROOT
// and on standard output, and makes the n-th one fail in the given way:
//   k  the process ends before the operation       (crash)
//   p  a write is half done, then the process ends (torn write)
//   a  the operation is done, then the process ends (crash)
//   e  the operation fails with ENOSPC             (fault)
//   d  it and all operations after it fail so       (full device)
//   s  a write stores only a part and says so      (legal short write)
//   i  the operation is interrupted once (EINTR)   (legal)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static int fault_n, op_n, out_too;
static char mode = '-';
static const char *root, *mark;
static size_t root_len;
static char mine[4096];
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static int (*r_unlink)(const char *);
static int (*r_unlinkat)(int, const char *, int);
static int (*r_rmdir)(const char *);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_rename)(const char *, const char *);
static int (*r_close)(int);

static void load(void) {
  if (r_write) return;
  r_open = dlsym(RTLD_NEXT, "open64");
  r_openat = dlsym(RTLD_NEXT, "openat64");
  r_unlink = dlsym(RTLD_NEXT, "unlink");
  r_unlinkat = dlsym(RTLD_NEXT, "unlinkat");
  r_rmdir = dlsym(RTLD_NEXT, "rmdir");
  r_mkdir = dlsym(RTLD_NEXT, "mkdir");
  r_rename = dlsym(RTLD_NEXT, "rename");
  r_close = dlsym(RTLD_NEXT, "close");
  r_writev = dlsym(RTLD_NEXT, "writev");
  r_write = dlsym(RTLD_NEXT, "write");
}
__attribute__((constructor)) static void init(void) {
  load();
  alarm(15);
  root = getenv("VW_ROOT");
  mark = getenv("VW_MARK");
  const char *f = getenv("VW_FAULT");
  root_len = root ? strlen(root) : 0;
  if (root && f && *f) {
    mode = *f;
    out_too = f[1] == 'o';
    fault_n = atoi(f + 1 + out_too);
  }
}
// 1: this operation is the chosen one
static int hit(void) {
  if (!fault_n || ++op_n < fault_n || (mode != 'd' && op_n > fault_n)) return 0;
  if (mark) {
    int fd = r_open(mark, O_CREAT | O_WRONLY, 0644);
    if (fd >= 0) r_close(fd);
  }
  return 1;
}
static int under(const char *p) {
  return root_len && p && (p[0] != '/' || !strncmp(p, root, root_len));
}
static int fail(void) {
  errno = mode == 'i' ? EINTR : ENOSPC;
  return -1;
}
#define GO(call)                              \
  load();                                     \
  if (under(p) && hit()) {                    \
    if (mode == 'k') _exit(77);               \
    if (mode == 'p' || mode == 'a') {         \
      call;                                   \
      _exit(77);                              \
    }                                         \
    if (mode == 'e' || mode == 'd') return fail();           \
  }                                           \
  return call;

static int do_open(int at, int dir, const char *p, int fl, mode_t m) {
  load();
  int w = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
  int track = w && under(p);
  int h = track && hit();
  if (h && mode == 'k') _exit(77);
  if (h && (mode == 'e' || mode == 'd' || mode == 'i')) return fail();
  int fd = at ? r_openat(dir, p, fl, m) : r_open(p, fl, m);
  if (h && (mode == 'p' || mode == 'a')) _exit(77);
  if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = track;
  return fd;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(0, 0, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(0, 0, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(1, d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(1, d, p, fl, m); }
int close(int fd) {
  load();
  if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 0;
  return r_close(fd);
}
ssize_t write(int fd, const void *b, size_t n) {
  load();
  int ours = (fd >= 0 && fd < (int)sizeof mine && mine[fd]) || (fd == 1 && out_too);
  if (ours && hit()) {
    if (mode == 'k') _exit(77);
    if (mode == 'p') { r_write(fd, b, n / 2); _exit(77); }
    if (mode == 'a') { r_write(fd, b, n); _exit(77); }
    if (mode == 'e' || mode == 'd' || mode == 'i') return fail();
    if (mode == 's' && n > 1) n /= 2;
  }
  return r_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  load();
  if (c > 0) {
    int i = 0;
    while (i < c - 1 && v[i].iov_len == 0) i++;
    return write(fd, v[i].iov_base, v[i].iov_len);
  }
  return r_writev(fd, v, c);
}
int unlink(const char *p) { GO(r_unlink(p)) }
int unlinkat(int d, const char *p, int f) { GO(r_unlinkat(d, p, f)) }
int rmdir(const char *p) { GO(r_rmdir(p)) }
int mkdir(const char *p, mode_t m) { GO(r_mkdir(p, m)) }
int rename(const char *p, const char *q) { GO(r_rename(p, q)) }
