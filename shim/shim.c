/* LD_PRELOAD shim: records the file-system calls made below $GSV_SHIM_DIR, in order, and can end the
   process (or fail the call) at a chosen one.
   $GSV_SHIM_PLAN: "crash K"        SIGKILL before call K
                   "torn K N"       write only N bytes of the write that is call K, then SIGKILL
                   "short K N"      the write that is call K writes only N bytes (and says so)
                   "fail K ERRNO"   call K fails with ERRNO without effect
                   "failp K N ERRNO" the write that is call K writes N bytes; the next call on that file fails
   $GSV_SHIM_LOG:  one line per call (written before the call is made)                               */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static const char *dir; static size_t dirlen; static int logfd = -1; static int inited;
static char mode[16]; static long pk = -1, pn, pe; static long count; static int failfd = -1;
#define MAXFD 1024
static char *fdname[MAXFD];
static long fdoff[MAXFD];

static void init(void) {
  if (inited) return;
  inited = 1;
  dir = getenv("GSV_SHIM_DIR");
  if (!dir) return;
  dirlen = strlen(dir);
  const char *l = getenv("GSV_SHIM_LOG");
  if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  const char *p = getenv("GSV_SHIM_PLAN");
  if (p) {
    char m[16]; long a = -1, b = 0, c = 0;
    int n = sscanf(p, "%15s %ld %ld %ld", m, &a, &b, &c);
    if (n >= 2) { strcpy(mode, m); pk = a; pn = b; pe = c; }
  }
}
static int inside(const char *p, char *out) {
  init();
  if (!dir || !p) return 0;
  char tmp[PATH_MAX];
  if (p[0] != '/') { if (!getcwd(tmp, sizeof tmp)) return 0; strncat(tmp, "/", 2); strncat(tmp, p, PATH_MAX - strlen(tmp) - 1); p = tmp; }
  if (strncmp(p, dir, dirlen) || (p[dirlen] != '/' && p[dirlen])) return 0;
  if (out) { strncpy(out, p + dirlen + (p[dirlen] == '/'), PATH_MAX - 1); out[PATH_MAX - 1] = 0; }
  return 1;
}
static void say(const char *fmt, ...) {
  char b[2 * PATH_MAX]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (logfd >= 0) syscall(SYS_write, logfd, b, (size_t)n);
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
/* number of this call; dies here if planned */
static long step(void) {
  long k = ++count;
  if (!strcmp(mode, "crash") && k == pk) die();
  return k;
}
static int failing(long k, long *err) {
  if (!strcmp(mode, "fail") && k == pk) { *err = pn; return 1; }
  return 0;
}
static const char *name(int fd) { return fd >= 0 && fd < MAXFD ? fdname[fd] : NULL; }

static int do_open(int dfd, const char *path, int flags, mode_t m) {
  char rel[PATH_MAX];
  int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
  if (dfd == AT_FDCWD && w && inside(path, rel)) {
    pthread_mutex_lock(&mu);
    long k = step(), e;
    if (failing(k, &e)) { say("failed open %s\n", rel); pthread_mutex_unlock(&mu); errno = e; return -1; }
    int existed = syscall(SYS_faccessat, AT_FDCWD, path, F_OK, 0) == 0;
    int fd = syscall(SYS_openat, dfd, path, flags, m);
    if (fd < 0) { int s = errno; say("noop open %s\n", rel); pthread_mutex_unlock(&mu); errno = s; return fd; }
    if (fd < MAXFD) { free(fdname[fd]); fdname[fd] = strdup(rel); fdoff[fd] = 0; }
    say("open %s %s\n", rel, (flags & O_TRUNC) || !existed ? "empty" : (flags & O_APPEND) ? "append" : "keep");
    pthread_mutex_unlock(&mu);
    return fd;
  }
  return syscall(SYS_openat, dfd, path, flags, m);
}
#define OPENV(flags) mode_t m = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENV(flags) return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENV(flags) return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { OPENV(flags) return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENV(flags) return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t do_write(int fd, const void *b, size_t n, long off) {
  const char *nm = name(fd);
  if (!nm) return off >= 0 ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
  pthread_mutex_lock(&mu);
  long k = step(), e;
  if (failing(k, &e)) { say("failed write %s\n", nm); pthread_mutex_unlock(&mu); errno = e; return -1; }
  if (failfd == fd) { say("failed write %s\n", nm); pthread_mutex_unlock(&mu); errno = pe; return -1; }
  size_t want = n;
  if ((!strcmp(mode, "torn") || !strcmp(mode, "short") || !strcmp(mode, "failp")) && k == pk && (size_t)pn < n) {
    want = pn;
    if (!strcmp(mode, "failp")) failfd = fd;
  }
  say("write %s %zu\n", nm, want);
  ssize_t r = off >= 0 ? syscall(SYS_pwrite64, fd, b, want, off) : syscall(SYS_write, fd, b, want);
  if (!strcmp(mode, "torn") && k == pk) die();
  pthread_mutex_unlock(&mu);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { init(); return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!name(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
/* force plain reads and writes */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (name(b)) { errno = ENOSYS; return -1; }
  return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile(int o, int i, off_t *f, size_t n) { if (name(o)) { errno = ENOSYS; return -1; } return syscall(SYS_sendfile, o, i, f, n); }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { if (name(o)) { errno = ENOSYS; return -1; } return syscall(SYS_sendfile, o, i, f, n); }

#define FDCALL(label, call) \
  const char *nm = name(fd); if (!nm) return call; \
  pthread_mutex_lock(&mu); long k = step(), e; \
  if (failing(k, &e)) { say("failed " label " %s\n", nm); pthread_mutex_unlock(&mu); errno = e; return -1; } \
  if (failfd == fd) { say("failed " label " %s\n", nm); pthread_mutex_unlock(&mu); errno = pe; return -1; } \
  say(label " %s\n", nm); int r = call; pthread_mutex_unlock(&mu); return r;
int fsync(int fd) { FDCALL("sync", syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { FDCALL("sync", syscall(SYS_fdatasync, fd)) }
static int do_trunc(int fd, long n) {
  const char *nm = name(fd); if (!nm) return syscall(SYS_ftruncate, fd, n);
  pthread_mutex_lock(&mu); long k = step(), e;
  if (failing(k, &e)) { say("failed trunc %s\n", nm); pthread_mutex_unlock(&mu); errno = e; return -1; }
  say("trunc %s %ld\n", nm, n); int r = syscall(SYS_ftruncate, fd, n); pthread_mutex_unlock(&mu); return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }
int close(int fd) { if (fd >= 0 && fd < MAXFD && fdname[fd]) { pthread_mutex_lock(&mu); if (failfd == fd) failfd = -1; free(fdname[fd]); fdname[fd] = NULL; pthread_mutex_unlock(&mu); } return syscall(SYS_close, fd); }

static int two(const char *label, const char *a, const char *b, long (*call)(const char *, const char *)) {
  char ra[PATH_MAX] = "", rb[PATH_MAX] = "";
  int ia = inside(a, ra), ib = inside(b, rb);
  if (!ia && !ib) return call(a, b);
  pthread_mutex_lock(&mu); long k = step(), e;
  if (failing(k, &e)) { say("failed %s %s %s\n", label, ra, rb); pthread_mutex_unlock(&mu); errno = e; return -1; }
  say("%s %s %s\n", label, ia ? ra : "/outside", ib ? rb : "/outside");
  int r = call(a, b); int s = errno; pthread_mutex_unlock(&mu); errno = s; return r;
}
static long c_rename(const char *a, const char *b) { return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
static long c_link(const char *a, const char *b) { return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
int rename(const char *a, const char *b) { return two("rename", a, b, c_rename); }
int renameat(int x, const char *a, int y, const char *b) { (void)x; (void)y; return two("rename", a, b, c_rename); }
int link(const char *a, const char *b) { return two("link", a, b, c_link); }
int linkat(int x, const char *a, int y, const char *b, int f) { (void)x; (void)y; (void)f; return two("link", a, b, c_link); }
static int do_unlink(int d, const char *p, int flags) {
  char rel[PATH_MAX];
  if (!(d == AT_FDCWD && !(flags & AT_REMOVEDIR) && inside(p, rel))) return syscall(SYS_unlinkat, d, p, flags);
  pthread_mutex_lock(&mu); long k = step(), e;
  if (failing(k, &e)) { say("failed unlink %s\n", rel); pthread_mutex_unlock(&mu); errno = e; return -1; }
  say("unlink %s\n", rel); int r = syscall(SYS_unlinkat, d, p, flags); int s = errno; pthread_mutex_unlock(&mu); errno = s; return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
