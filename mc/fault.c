// Interposes the file-system calls of one process: counts those that change something below a prefix, and lets the
// process die (or stop) at the n-th one; a write can be torn in the middle.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static size_t plen = 0;
static long counter = 0, target = -1;
static int mode = 0;  // 0 = die before the operation, 1 = die in the middle of a write (before other operations), 2 = stop, 3 = fail with ENOSPC from here on
static int armed = 0;

void fault_arm(const char *p, long n, int m) {
  strncpy(prefix, p, sizeof(prefix) - 1);
  plen = strlen(prefix);
  counter = 0;
  target = n;
  mode = m;
  armed = 1;
}
void fault_disarm(void) { armed = 0; }
long fault_count(void) { return counter; }

static int below(const char *path) {
  if (!armed || path == NULL) return 0;
  if (path[0] == '/') return strncmp(path, prefix, plen) == 0;
  char cwd[PATH_MAX];
  if (!getcwd(cwd, sizeof(cwd))) return 0;
  return strncmp(cwd, prefix, plen) == 0;
}
static int below_at(int dirfd, const char *path) {
  if (!armed || path == NULL) return 0;
  if (path[0] == '/' || dirfd == AT_FDCWD) return below(path);
  char link[64], buf[PATH_MAX];
  snprintf(link, sizeof(link), "/proc/self/fd/%d", dirfd);
  ssize_t n = readlink(link, buf, sizeof(buf) - 1);
  if (n < 0) return 0;
  buf[n] = 0;
  return strncmp(buf, prefix, plen) == 0;
}
static int below_fd(int fd) {
  if (!armed) return 0;
  char link[64], buf[PATH_MAX];
  snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, buf, sizeof(buf) - 1);
  if (n < 0) return 0;
  buf[n] = 0;
  return strncmp(buf, prefix, plen) == 0;
}
// returns 1 if the caller shall tear the write, -1 if the call shall fail
static int op(int is_write) {
  long c = counter++;
  if (target < 0) return 0;
  if (mode == 3) return c >= target ? -1 : 0;
  if (c != target) return 0;
  if (mode == 2) { raise(SIGSTOP); return 0; }
  if (mode == 1 && is_write) return 1;
  syscall(SYS_exit_group, 137);
  return 0;
}
#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)
#define FAIL do { errno = ENOSPC; return -1; } while (0)

ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (below_fd(fd)) {
    int t = op(1);
    if (t < 0) FAIL;
    if (t) { if (n / 2) real_write(fd, b, n / 2); syscall(SYS_exit_group, 137); }
  }
  return real_write(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64);
  if (below_fd(fd)) {
    int t = op(1);
    if (t < 0) FAIL;
    if (t) { if (n / 2) real_pwrite64(fd, b, n / 2, o); syscall(SYS_exit_group, 137); }
  }
  return real_pwrite64(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(pwrite);
  if (below_fd(fd)) {
    int t = op(1);
    if (t < 0) FAIL;
    if (t) { if (n / 2) real_pwrite(fd, b, n / 2, o); syscall(SYS_exit_group, 137); }
  }
  return real_pwrite(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(writev);
  if (below_fd(fd) && op(0) < 0) FAIL;
  return real_writev(fd, v, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  REAL(sendfile);
  if (below_fd(o)) {
    int t = op(1);
    if (t < 0) FAIL;
    if (t) { struct stat s; fstat(i, &s); if (s.st_size / 2) real_sendfile(o, i, off, s.st_size / 2); syscall(SYS_exit_group, 137); }
  }
  return real_sendfile(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(sendfile64);
  if (below_fd(o)) {
    int t = op(1);
    if (t < 0) FAIL;
    if (t) { struct stat s; fstat(i, &s); if (s.st_size / 2) real_sendfile64(o, i, off, s.st_size / 2); syscall(SYS_exit_group, 137); }
  }
  return real_sendfile64(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  REAL(copy_file_range);
  if (below_fd(o)) {
    int t = op(1);
    if (t < 0) FAIL;
    if (t) { struct stat s; fstat(i, &s); if (s.st_size / 2) real_copy_file_range(i, io, o, oo, s.st_size / 2, f); syscall(SYS_exit_group, 137); }
  }
  return real_copy_file_range(i, io, o, oo, n, f);
}
size_t fwrite(const void *b, size_t sz, size_t n, FILE *f) {
  REAL(fwrite);
  if (armed && below_fd(fileno(f))) {
    int t = op(1);
    if (t < 0) { errno = ENOSPC; return 0; }
    if (t) { if (n / 2) real_fwrite(b, sz, n / 2, f); fflush(f); syscall(SYS_exit_group, 137); }
  }
  return real_fwrite(b, sz, n, f);
}
#define WR(flags) ((flags) & (O_CREAT | O_TRUNC))
int open(const char *p, int flags, ...) {
  REAL(open);
  va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  if (WR(flags) && below(p) && op(0) < 0) FAIL;
  return real_open(p, flags, m);
}
int open64(const char *p, int flags, ...) {
  REAL(open64);
  va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  if (WR(flags) && below(p) && op(0) < 0) FAIL;
  return real_open64(p, flags, m);
}
int openat(int d, const char *p, int flags, ...) {
  REAL(openat);
  va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  if (WR(flags) && below_at(d, p) && op(0) < 0) FAIL;
  return real_openat(d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
  REAL(openat64);
  va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  if (WR(flags) && below_at(d, p) && op(0) < 0) FAIL;
  return real_openat64(d, p, flags, m);
}
int creat(const char *p, mode_t m) { REAL(creat); if (below(p) && op(0) < 0) FAIL; return real_creat(p, m); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (below(p) && op(0) < 0) FAIL; return real_mkdir(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); if (below_at(d, p) && op(0) < 0) FAIL; return real_mkdirat(d, p, m); }
int rename(const char *a, const char *b) { REAL(rename); if ((below(a) || below(b)) && op(0) < 0) FAIL; return real_rename(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); if ((below_at(x, a) || below_at(y, b)) && op(0) < 0) FAIL; return real_renameat(x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(renameat2); if ((below_at(x, a) || below_at(y, b)) && op(0) < 0) FAIL; return real_renameat2(x, a, y, b, f); }
int link(const char *a, const char *b) { REAL(link); if (below(b) && op(0) < 0) FAIL; return real_link(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); if (below(b) && op(0) < 0) FAIL; return real_symlink(a, b); }
// removals never fail for lack of space
int unlink(const char *p) { REAL(unlink); if (below(p)) op(0); return real_unlink(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); if (below_at(d, p)) op(0); return real_unlinkat(d, p, f); }
int rmdir(const char *p) { REAL(rmdir); if (below(p)) op(0); return real_rmdir(p); }
int truncate(const char *p, off_t n) { REAL(truncate); if (below(p)) op(0); return real_truncate(p, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (below_fd(fd)) op(0); return real_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (below_fd(fd)) op(0); return real_ftruncate64(fd, n); }
