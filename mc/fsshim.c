// LD_PRELOAD shim: reports file operations below a watched directory to a
// controller *before* they take effect and obeys its answer.
//
// Compiled by mc/fsproc.py into the scratch directory of a run.  A process is
// observed only after fsshim_arm(fd, prefix); in processes it forks the shim is
// disarmed.  One line per operation, "<op>\t<path>\t<path2>\t<size>\n"; answers:
//   g        execute
//   k        die (SIGKILL) without executing
//   a        execute, then die
//   t <n>    write only the first n bytes, then die
//   e <err>  fail with errno err
//   s <n>    write/read only n bytes (short count)
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int chan = -1;
static char prefix[PATH_MAX];
static size_t plen;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(name) ((__typeof__(&name))real(#name))
static void *real(const char *name) { return dlsym(RTLD_NEXT, name); }

static void disarm_child(void) { chan = -1; }
__attribute__((constructor)) static void init(void) {
  pthread_atfork(NULL, NULL, disarm_child);
}
void fsshim_arm(int fd, const char *p) {
  strncpy(prefix, p, sizeof prefix - 1);
  plen = strlen(prefix);
  chan = fd;
}
void fsshim_disarm(void) { chan = -1; }

static int under(const char *p) {
  return plen && strncmp(p, prefix, plen) == 0 && (p[plen] == '/' || !p[plen]);
}

// Absolute path (lexical) of (dirfd, path); 0 if not watched.
static int watched_at(int dfd, const char *path, char *out) {
  if (chan < 0 || !path) return 0;
  if (path[0] == '/') {
    snprintf(out, PATH_MAX, "%s", path);
  } else {
    char base[PATH_MAX];
    if (dfd == AT_FDCWD) {
      if (!getcwd(base, sizeof base)) return 0;
    } else {
      char l[64];
      snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
      ssize_t n = syscall(SYS_readlink, l, base, sizeof base - 1);
      if (n < 0) return 0;
      base[n] = 0;
    }
    if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return 0;
  }
  return under(out);
}
static int watched_fd(int fd, char *out) {
  if (chan < 0 || fd == chan || fd < 0) return 0;
  char l[64];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlink, l, out, PATH_MAX - 1);
  if (n < 0) return 0;
  out[n] = 0;
  return under(out);
}

typedef struct { char kind; long arg; } ans_t;

static ans_t ask(const char *op, const char *p, const char *p2, long size) {
  ans_t a = {'g', 0};
  int saved = errno, fd = chan;
  if (fd < 0) return a;
  char buf[3 * PATH_MAX];
  int n = snprintf(buf, sizeof buf, "%s\t%s\t%s\t%ld\n", op, p, p2 ? p2 : "", size);
  for (int i = 0; i < n;) {
    long r = syscall(SYS_write, fd, buf + i, n - i);
    if (r <= 0) { syscall(SYS_exit_group, 97); }
    i += r;
  }
  char line[64];
  int k = 0;
  while (k < 63) {
    long r = syscall(SYS_read, fd, line + k, 1);
    if (r <= 0) { syscall(SYS_exit_group, 97); }
    if (line[k] == '\n') break;
    k++;
  }
  line[k] = 0;
  a.kind = line[0];
  a.arg = k > 2 ? atol(line + 2) : 0;
  if (a.kind == 'k') { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
  errno = saved;
  return a;
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

// Generic wrapper: asks, then evaluates CALL unless an error was injected.
#define WRAP(type, cond, op, p, p2, size, CALL)                 \
  do {                                                          \
    if (chan >= 0 && (cond)) {                                  \
      pthread_mutex_lock(&mu);                                  \
      ans_t a = ask(op, p, p2, size);                           \
      type r;                                                   \
      if (a.kind == 'e') { errno = a.arg; r = (type)-1; }       \
      else { r = (CALL); if (a.kind == 'a' || a.kind == 't') die(); } \
      pthread_mutex_unlock(&mu);                                \
      return r;                                                 \
    }                                                           \
    return (CALL);                                              \
  } while (0)

static const char *open_op(int flags) {
  int acc = flags & O_ACCMODE;
  if (flags & O_DIRECTORY) return "opendir";
  if (acc == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) return "openr";
  return (flags & O_TRUNC) ? "opentrunc" : (flags & O_EXCL) ? "openexcl" : "openw";
}
#define MODE(flags)                                             \
  mode_t mode = 0;                                              \
  if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) {  \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) {
  MODE(flags) char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, path, b), open_op(flags), b, NULL, 0, REAL(open)(path, flags, mode));
}
int open64(const char *path, int flags, ...) {
  MODE(flags) char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, path, b), open_op(flags), b, NULL, 0, REAL(open64)(path, flags, mode));
}
int openat(int d, const char *path, int flags, ...) {
  MODE(flags) char b[PATH_MAX];
  WRAP(int, watched_at(d, path, b), open_op(flags), b, NULL, 0, REAL(openat)(d, path, flags, mode));
}
int openat64(int d, const char *path, int flags, ...) {
  MODE(flags) char b[PATH_MAX];
  WRAP(int, watched_at(d, path, b), open_op(flags), b, NULL, 0, REAL(openat64)(d, path, flags, mode));
}
int creat(const char *path, mode_t mode) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, path, b), "opentrunc", b, NULL, 0, REAL(creat)(path, mode));
}
int creat64(const char *path, mode_t mode) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, path, b), "opentrunc", b, NULL, 0, REAL(creat64)(path, mode));
}
static const char *fopen_op(const char *m) {
  return m[0] == 'r' && !strchr(m, '+') ? "openr" : m[0] == 'w' ? "opentrunc" : "openw";
}
FILE *fopen(const char *path, const char *m) {
  char b[PATH_MAX];
  if (chan >= 0 && watched_at(AT_FDCWD, path, b)) {
    ans_t a = ask(fopen_op(m), b, NULL, 0);
    if (a.kind == 'e') { errno = a.arg; return NULL; }
    FILE *f = REAL(fopen)(path, m);
    if (a.kind == 'a' || a.kind == 't') die();
    return f;
  }
  return REAL(fopen)(path, m);
}
FILE *fopen64(const char *path, const char *m) {
  char b[PATH_MAX];
  if (chan >= 0 && watched_at(AT_FDCWD, path, b)) {
    ans_t a = ask(fopen_op(m), b, NULL, 0);
    if (a.kind == 'e') { errno = a.arg; return NULL; }
    FILE *f = REAL(fopen64)(path, m);
    if (a.kind == 'a' || a.kind == 't') die();
    return f;
  }
  return REAL(fopen64)(path, m);
}

#define RW(name, opname, PARAMS, n, CALLN)                        \
  ssize_t name PARAMS {                                           \
    char b[PATH_MAX];                                             \
    if (chan >= 0 && watched_fd(fd, b)) {                         \
      pthread_mutex_lock(&mu);                                    \
      ans_t a = ask(opname, b, NULL, (long)n);                    \
      ssize_t r;                                                  \
      size_t m = n;                                               \
      if (a.kind == 'e') { errno = a.arg; r = -1; }               \
      else {                                                      \
        if ((a.kind == 's' || a.kind == 't') && (size_t)a.arg < m) m = a.arg; \
        r = m || !n ? (CALLN) : 0;                                \
        if (a.kind == 'a' || a.kind == 't') die();                \
      }                                                           \
      pthread_mutex_unlock(&mu);                                  \
      return r;                                                   \
    }                                                             \
    { size_t m = n; return (CALLN); }                             \
  }
RW(write, "write", (int fd, const void *p, size_t n), n, REAL(write)(fd, p, m))
RW(read, "read", (int fd, void *p, size_t n), n, REAL(read)(fd, p, m))
RW(pwrite, "write", (int fd, const void *p, size_t n, off_t o), n, REAL(pwrite)(fd, p, m, o))
RW(pwrite64, "write", (int fd, const void *p, size_t n, off_t o), n, REAL(pwrite64)(fd, p, m, o))
RW(pread, "read", (int fd, void *p, size_t n, off_t o), n, REAL(pread)(fd, p, m, o))
RW(pread64, "read", (int fd, void *p, size_t n, off_t o), n, REAL(pread64)(fd, p, m, o))

static size_t iovlen(const struct iovec *v, int c) {
  size_t s = 0;
  for (int i = 0; i < c; i++) s += v[i].iov_len;
  return s;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  char b[PATH_MAX];
  WRAP(ssize_t, watched_fd(fd, b), "writev", b, NULL, (long)iovlen(v, c), REAL(writev)(fd, v, c));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  char b[PATH_MAX];
  WRAP(ssize_t, watched_fd(fd, b), "read", b, NULL, (long)iovlen(v, c), REAL(readv)(fd, v, c));
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  char b[PATH_MAX];
  WRAP(ssize_t, watched_fd(o, b), "writev", b, NULL, (long)n, REAL(sendfile)(o, i, off, n));
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  char b[PATH_MAX];
  WRAP(ssize_t, watched_fd(o, b), "writev", b, NULL, (long)n, REAL(sendfile64)(o, i, off, n));
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
  char b[PATH_MAX];
  WRAP(ssize_t, watched_fd(o, b), "writev", b, NULL, (long)n, REAL(copy_file_range)(i, oi, o, oo, n, f));
}

int close(int fd) {
  char b[PATH_MAX];
  if (chan >= 0 && watched_fd(fd, b)) {
    pthread_mutex_lock(&mu);
    int fl = fcntl(fd, F_GETFL);
    ans_t a = ask((fl & O_ACCMODE) == O_RDONLY ? "closer" : "closew", b, NULL, 0);
    int r = REAL(close)(fd);  // the descriptor is released in any case
    if (a.kind == 'a' || a.kind == 't') die();
    if (a.kind == 'e') { errno = a.arg; r = -1; }
    pthread_mutex_unlock(&mu);
    return r;
  }
  return REAL(close)(fd);
}

static int two(int d1, const char *p1, int d2, const char *p2, char *a, char *b) {
  int x = watched_at(d1, p1, a), y = watched_at(d2, p2, b);
  return x || y;
}
int rename(const char *p, const char *q) {
  char a_[PATH_MAX] = "", b_[PATH_MAX] = "";
  WRAP(int, two(AT_FDCWD, p, AT_FDCWD, q, a_, b_), "rename", a_, b_, 0, REAL(rename)(p, q));
}
int renameat(int d, const char *p, int e, const char *q) {
  char a_[PATH_MAX] = "", b_[PATH_MAX] = "";
  WRAP(int, two(d, p, e, q, a_, b_), "rename", a_, b_, 0, REAL(renameat)(d, p, e, q));
}
int renameat2(int d, const char *p, int e, const char *q, unsigned f) {
  char a_[PATH_MAX] = "", b_[PATH_MAX] = "";
  WRAP(int, two(d, p, e, q, a_, b_), "rename", a_, b_, 0, REAL(renameat2)(d, p, e, q, f));
}
int link(const char *p, const char *q) {
  char a_[PATH_MAX] = "", b_[PATH_MAX] = "";
  WRAP(int, two(AT_FDCWD, p, AT_FDCWD, q, a_, b_), "link", a_, b_, 0, REAL(link)(p, q));
}
int linkat(int d, const char *p, int e, const char *q, int f) {
  char a_[PATH_MAX] = "", b_[PATH_MAX] = "";
  WRAP(int, two(d, p, e, q, a_, b_), "link", a_, b_, 0, REAL(linkat)(d, p, e, q, f));
}
int symlink(const char *p, const char *q) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, q, b), "link", b, NULL, 0, REAL(symlink)(p, q));
}
int symlinkat(const char *p, int e, const char *q) {
  char b[PATH_MAX];
  WRAP(int, watched_at(e, q, b), "link", b, NULL, 0, REAL(symlinkat)(p, e, q));
}
int unlink(const char *p) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "unlink", b, NULL, 0, REAL(unlink)(p));
}
int unlinkat(int d, const char *p, int f) {
  char b[PATH_MAX];
  WRAP(int, watched_at(d, p, b), "unlink", b, NULL, 0, REAL(unlinkat)(d, p, f));
}
int remove(const char *p) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "unlink", b, NULL, 0, REAL(remove)(p));
}
int rmdir(const char *p) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "rmdir", b, NULL, 0, REAL(rmdir)(p));
}
int mkdir(const char *p, mode_t m) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "mkdir", b, NULL, 0, REAL(mkdir)(p, m));
}
int mkdirat(int d, const char *p, mode_t m) {
  char b[PATH_MAX];
  WRAP(int, watched_at(d, p, b), "mkdir", b, NULL, 0, REAL(mkdirat)(d, p, m));
}
int truncate(const char *p, off_t n) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "truncate", b, NULL, n, REAL(truncate)(p, n));
}
int truncate64(const char *p, off64_t n) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "truncate", b, NULL, n, REAL(truncate64)(p, n));
}
int ftruncate(int fd, off_t n) {
  char b[PATH_MAX];
  WRAP(int, watched_fd(fd, b), "truncate", b, NULL, n, REAL(ftruncate)(fd, n));
}
int ftruncate64(int fd, off64_t n) {
  char b[PATH_MAX];
  WRAP(int, watched_fd(fd, b), "truncate", b, NULL, n, REAL(ftruncate64)(fd, n));
}
int posix_fallocate(int fd, off_t o, off_t n) {
  char b[PATH_MAX];
  if (chan >= 0 && watched_fd(fd, b)) {
    ans_t a = ask("truncate", b, NULL, n);
    if (a.kind == 'e') return a.arg;
    int r = REAL(posix_fallocate)(fd, o, n);
    if (a.kind == 'a' || a.kind == 't') die();
    return r;
  }
  return REAL(posix_fallocate)(fd, o, n);
}
int fsync(int fd) {
  char b[PATH_MAX];
  WRAP(int, watched_fd(fd, b), "fsync", b, NULL, 0, REAL(fsync)(fd));
}
int fdatasync(int fd) {
  char b[PATH_MAX];
  WRAP(int, watched_fd(fd, b), "fsync", b, NULL, 0, REAL(fdatasync)(fd));
}

// Observations of names.
int stat(const char *p, struct stat *s) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "stat", b, NULL, 0, REAL(stat)(p, s));
}
int stat64(const char *p, struct stat64 *s) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "stat", b, NULL, 0, REAL(stat64)(p, s));
}
int lstat(const char *p, struct stat *s) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "stat", b, NULL, 0, REAL(lstat)(p, s));
}
int lstat64(const char *p, struct stat64 *s) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "stat", b, NULL, 0, REAL(lstat64)(p, s));
}
int fstatat(int d, const char *p, struct stat *s, int f) {
  char b[PATH_MAX];
  WRAP(int, p && p[0] && watched_at(d, p, b), "stat", b, NULL, 0, REAL(fstatat)(d, p, s, f));
}
int fstatat64(int d, const char *p, struct stat64 *s, int f) {
  char b[PATH_MAX];
  WRAP(int, p && p[0] && watched_at(d, p, b), "stat", b, NULL, 0, REAL(fstatat64)(d, p, s, f));
}
int access(const char *p, int m) {
  char b[PATH_MAX];
  WRAP(int, watched_at(AT_FDCWD, p, b), "stat", b, NULL, 0, REAL(access)(p, m));
}
int faccessat(int d, const char *p, int m, int f) {
  char b[PATH_MAX];
  WRAP(int, watched_at(d, p, b), "stat", b, NULL, 0, REAL(faccessat)(d, p, m, f));
}
DIR *opendir(const char *p) {
  char b[PATH_MAX];
  if (chan >= 0 && watched_at(AT_FDCWD, p, b)) {
    ans_t a = ask("opendir", b, NULL, 0);
    if (a.kind == 'e') { errno = a.arg; return NULL; }
    DIR *d = REAL(opendir)(p);
    if (a.kind == 'a' || a.kind == 't') die();
    return d;
  }
  return REAL(opendir)(p);
}

// Locks: a blocking request becomes try + "lockwait" until it succeeds.
int flock(int fd, int op) {
  char b[PATH_MAX];
  if (chan >= 0 && watched_fd(fd, b)) {
    ask(op & LOCK_UN ? "unlock" : "lock", b, NULL, 0);
    for (;;) {
      int r = REAL(flock)(fd, op | LOCK_NB);
      if (r == 0 || (op & (LOCK_NB | LOCK_UN)) || errno != EWOULDBLOCK) return r;
      ask("lockwait", b, NULL, 0);
    }
  }
  return REAL(flock)(fd, op);
}
static int fcntl_impl(int (*f)(int, int, ...), int fd, int cmd, void *arg) {
  char b[PATH_MAX];
  if (chan >= 0 && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) && watched_fd(fd, b)) {
    int wait = cmd == F_SETLKW || cmd == F_OFD_SETLKW;
    int nb = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
    ask(((struct flock *)arg)->l_type == F_UNLCK ? "unlock" : "lock", b, NULL, 0);
    for (;;) {
      int r = f(fd, nb, arg);
      if (r != -1 || !wait || (errno != EAGAIN && errno != EACCES)) return r;
      ask("lockwait", b, NULL, 0);
    }
  }
  return f(fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
  return fcntl_impl((int (*)(int, int, ...))real("fcntl"), fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
  return fcntl_impl((int (*)(int, int, ...))real("fcntl64"), fd, cmd, arg);
}

// Waiting is a request to run somebody else.
int nanosleep(const struct timespec *t, struct timespec *r) {
  if (chan >= 0) { ask("sleep", "", NULL, 0); return 0; }
  return REAL(nanosleep)(t, r);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) {
  if (chan >= 0) { ask("sleep", "", NULL, 0); return 0; }
  return REAL(clock_nanosleep)(c, f, t, r);
}
int usleep(useconds_t u) {
  if (chan >= 0) { ask("sleep", "", NULL, 0); return 0; }
  return REAL(usleep)(u);
}
