// One fault at one enumerated point: the k-th open for writing, write, open for reading, read or
// path resolution either fails or delivers less than asked for. MC_COUNT=FILE: report the calls seen.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPENW, WRITE, OPENR, READ, RESOLVE, NKIND };
static const char *const kinds[NKIND] = {"openw", "write", "openr", "read", "resolve"};
static int count[NKIND], want_kind = -1, want_k = -1, writable[1024], readable[1024];
static char mode[32];
__attribute__((constructor)) static void init(void) {
  const char *s = getenv("MC_FAULT");
  if (!s) return;
  char k[32];
  if (sscanf(s, "%31[a-z]:%d:%31s", k, &want_k, mode) == 3)
    for (int i = 0; i < NKIND; i++) if (!strcmp(k, kinds[i])) want_kind = i;
}
__attribute__((destructor)) static void fini(void) {
  const char *s = getenv("MC_COUNT");
  if (!s) return;
  char b[256]; int n = 0;
  for (int i = 0; i < NKIND; i++) n += snprintf(b + n, sizeof b - (size_t)n, "%s %d\n", kinds[i], count[i]);
  int fd = (int)syscall(SYS_openat, AT_FDCWD, s, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  syscall(SYS_write, fd, b, n);
  syscall(SYS_close, fd);
}
static int hit(int k) { return count[k]++ == want_k && want_kind == k; }
static int err(void) {
  errno = !strcmp(mode, "eintr") ? EINTR : !strcmp(mode, "enospc") ? ENOSPC : !strcmp(mode, "eio") ? EIO
        : !strcmp(mode, "eacces") ? EACCES : !strcmp(mode, "emfile") ? EMFILE : !strcmp(mode, "enoent") ? ENOENT : EINVAL;
  return -1;
}
static int interesting(const char *p) { return strncmp(p, "/proc/", 6) && strncmp(p, "/sys/", 5) && strncmp(p, "/etc/", 5) && (strncmp(p, "/dev/", 5) || !strncmp(p, "/dev/shm/", 9)); }
static int doopen(const char *p, int fl, int m) {
  int w = (fl & O_ACCMODE) != O_RDONLY, i = interesting(p) || w;
  if (i && hit(w ? OPENW : OPENR)) return err();
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
  if (fd >= 0 && fd < 1024 && i) { writable[fd] = w; readable[fd] = !w; }
  return fd;
}
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doopen(p, fl, m); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doopen(p, fl, m); }
int close(int fd) { if (fd >= 0 && fd < 1024) writable[fd] = readable[fd] = 0; return (int)syscall(SYS_close, fd); }
ssize_t write(int fd, const void *b, size_t n) {
  if (fd >= 0 && fd < 1024 && writable[fd] && hit(WRITE)) {
    if (!strcmp(mode, "one")) n = n ? 1 : 0;
    else if (!strcmp(mode, "half")) n = (n + 1) / 2;
    else if (!strcmp(mode, "butone")) n = n > 1 ? n - 1 : n;
    else if (!strcmp(mode, "zero")) return 0;
    else return err();
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fd >= 0 && fd < 1024 && writable[fd]) return c ? write(fd, v[0].iov_base, v[0].iov_len) : 0;
  return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
  if (fd >= 0 && fd < 1024 && readable[fd] && hit(READ)) {
    if (!strcmp(mode, "one")) n = n ? 1 : 0;
    else if (!strcmp(mode, "half")) n = (n + 1) / 2;
    else return err();
  }
  return syscall(SYS_read, fd, b, n);
}
char *realpath(const char *p, char *r) {
  static char *(*f)(const char *, char *);
  if (hit(RESOLVE)) { err(); return NULL; }
  if (!f) f = (char *(*)(const char *, char *))dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
  if (!f) f = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
  return f(p, r);
}
