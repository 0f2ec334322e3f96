// Records the file operations beneath one directory, and makes chosen ones fail.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN = 1, K_CREATE = 2, K_WRITE = 4, K_SYNC = 8, K_RENAME = 16, K_UNLINK = 32, K_MKDIR = 64, K_TRUNC = 128, K_READ = 256, K_CLOSE = 512 };
typedef void (*logger_t)(int kind, const char *path, const char *path2, uint64_t off, const void *data, uint64_t len);

static char root[PATH_MAX];
static size_t rootlen;
static logger_t logger;
#define MAXFD 4096
static char *names[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long fail_at, counter; // counts down from fail_at
static int fail_mask, fail_errno, fail_sticky, fail_torn, fired;

void vxf_root(const char *p, logger_t l) {
  pthread_mutex_lock(&mu);
  logger = l;
  if (p) { strncpy(root, p, PATH_MAX - 1); rootlen = strlen(root); } else { rootlen = 0; root[0] = 0; }
  for (int i = 0; i < MAXFD; i++) if (names[i]) { free(names[i]); names[i] = 0; }
  pthread_mutex_unlock(&mu);
}
// the n-th operation from now whose kind is in mask fails (n = 0: none); sticky: and all after it
void vxf_fail(int mask, long n, int err, int sticky, int torn) { pthread_mutex_lock(&mu); fail_mask = mask; fail_at = n; fail_errno = err; fail_sticky = sticky; fail_torn = torn; counter = 0; fired = 0; pthread_mutex_unlock(&mu); }
long vxf_count(void) { return counter; }
int vxf_fired(void) { return fired; }

static int inside(const char *p) { return rootlen && p && strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0); }
static int infolog(const char *p) { const char *b = strrchr(p, '/'); return b && (strncmp(b, "/LOG", 4) == 0); }
static const char *fdname(int fd) { return fd >= 0 && fd < MAXFD ? names[fd] : 0; }
// 1: this operation is to fail
static int faulty(int kind, const char *p) {
  if (!(kind & fail_mask) || infolog(p)) return 0;
  counter++;
  if (fail_at && (counter == fail_at || (fail_sticky && counter > fail_at))) { fired++; errno = fail_errno; return 1; }
  return 0;
}
static void record(int kind, const char *a, const char *b, uint64_t off, const void *d, uint64_t n) { if (logger && !infolog(a)) logger(kind, a, b, off, d, n); }
#define REAL(name, type) static __typeof__(type) real; if (!real) real = (__typeof__(type))dlsym(RTLD_NEXT, name)

static int do_open(int (*real)(const char *, int, ...), const char *p, int flags, mode_t mode) {
  if (!inside(p)) return real(p, flags, mode);
  pthread_mutex_lock(&mu);
  struct stat st;
  int existed = stat(p, &st) == 0;
  int kind = (flags & O_CREAT) && !existed ? K_CREATE : K_OPEN;
  if (faulty(kind, p)) { pthread_mutex_unlock(&mu); return -1; }
  int fd = real(p, flags, mode);
  int e = errno;
  if (fd >= 0 && fd < MAXFD) {
    free(names[fd]);
    names[fd] = strdup(p);
    if (kind == K_CREATE) record(K_CREATE, p, 0, 0, 0, 0);
    else if (flags & O_TRUNC) record(K_TRUNC, p, 0, 0, 0, 0);
  }
  pthread_mutex_unlock(&mu);
  errno = e;
  return fd;
}
#define OPEN(NAME) int NAME(const char *p, int flags, ...) { \
  REAL(#NAME, int (*)(const char *, int, ...)); \
  mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  return do_open(real, p, flags, mode); }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME, PLAIN) int NAME(int dir, const char *p, int flags, ...) { \
  REAL(#NAME, int (*)(int, const char *, int, ...)); \
  mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  if (inside(p)) return PLAIN(p, flags, mode); \
  return real(dir, p, flags, mode); }
OPENAT(openat, open)
OPENAT(openat64, open64)

int close(int fd) {
  REAL("close", int (*)(int));
  pthread_mutex_lock(&mu);
  if (fd >= 0 && fd < MAXFD && names[fd]) { free(names[fd]); names[fd] = 0; }
  int r = real(fd);
  pthread_mutex_unlock(&mu);
  return r;
}
static ssize_t out(int fd, const void *d, size_t n, int64_t at) {
  REAL("pwrite", ssize_t (*)(int, const void *, size_t, off_t));
  static ssize_t (*realw)(int, const void *, size_t);
  if (!realw) realw = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
  const char *p = fdname(fd);
  if (!p) return at < 0 ? realw(fd, d, n) : real(fd, d, n, at);
  pthread_mutex_lock(&mu);
  int bad = faulty(K_WRITE, p);
  if (bad && !(fail_torn && counter == fail_at && n > 1)) { pthread_mutex_unlock(&mu); errno = fail_errno; return -1; }
  if (bad) { n = n / 2; fail_sticky = 1; } // the device fills up in the middle
  uint64_t off = at;
  if (at < 0) { int fl = fcntl(fd, F_GETFL); off = fl & O_APPEND ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR); }
  ssize_t r = at < 0 ? realw(fd, d, n) : real(fd, d, n, at);
  int e = errno;
  if (r > 0) record(K_WRITE, p, 0, off, d, r);
  pthread_mutex_unlock(&mu);
  errno = e;
  return r;
}
ssize_t write(int fd, const void *d, size_t n) { return out(fd, d, n, -1); }
ssize_t pwrite(int fd, const void *d, size_t n, off_t at) { return out(fd, d, n, at); }
ssize_t pwrite64(int fd, const void *d, size_t n, off64_t at) { return out(fd, d, n, at); }
static int failing(int kind, int fd) {
  const char *p = fdname(fd);
  if (!p) return 0;
  pthread_mutex_lock(&mu);
  int bad = faulty(kind, p);
  pthread_mutex_unlock(&mu);
  if (bad) errno = fail_errno;
  return bad;
}
ssize_t read(int fd, void *d, size_t n) { REAL("read", ssize_t (*)(int, void *, size_t)); return failing(K_READ, fd) ? -1 : real(fd, d, n); }
ssize_t pread(int fd, void *d, size_t n, off_t at) { REAL("pread", ssize_t (*)(int, void *, size_t, off_t)); return failing(K_READ, fd) ? -1 : real(fd, d, n, at); }
ssize_t pread64(int fd, void *d, size_t n, off64_t at) { REAL("pread64", ssize_t (*)(int, void *, size_t, off64_t)); return failing(K_READ, fd) ? -1 : real(fd, d, n, at); }
// nothing a crash can take is left after this; the disk itself need not be waited for
static int flush(int fd, int (*real)(int)) {
  const char *p = fdname(fd);
  if (!p) return real(fd);
  pthread_mutex_lock(&mu);
  if (faulty(K_SYNC, p)) { pthread_mutex_unlock(&mu); errno = fail_errno; return -1; }
  record(K_SYNC, p, 0, 0, 0, 0);
  pthread_mutex_unlock(&mu);
  return 0;
}
int fsync(int fd) { REAL("fsync", int (*)(int)); return flush(fd, real); }
int fdatasync(int fd) { REAL("fdatasync", int (*)(int)); return flush(fd, real); }
static int cut(int fd, int64_t n, int (*real)(int, off_t)) {
  const char *p = fdname(fd);
  if (!p) return real(fd, n);
  pthread_mutex_lock(&mu);
  if (faulty(K_TRUNC, p)) { pthread_mutex_unlock(&mu); errno = fail_errno; return -1; }
  int r = real(fd, n);
  if (r == 0) record(K_TRUNC, p, 0, n, 0, 0);
  pthread_mutex_unlock(&mu);
  return r;
}
int ftruncate(int fd, off_t n) { REAL("ftruncate", int (*)(int, off_t)); return cut(fd, n, real); }
int ftruncate64(int fd, off64_t n) { REAL("ftruncate", int (*)(int, off_t)); return cut(fd, n, real); }
#define NAMED(NAME, KIND, SIG, P, P2, ...) int NAME SIG { \
  REAL(#NAME, int (*) SIG); \
  if (!inside(P)) return real(__VA_ARGS__); \
  pthread_mutex_lock(&mu); \
  if (faulty(KIND, P)) { pthread_mutex_unlock(&mu); errno = fail_errno; return -1; } \
  int r = real(__VA_ARGS__); \
  int e = errno; \
  if (r == 0) record(KIND, P, P2, 0, 0, 0); \
  pthread_mutex_unlock(&mu); \
  errno = e; \
  return r; }
static void renamed(const char *a, const char *b) { for (int i = 0; i < MAXFD; i++) if (names[i] && strcmp(names[i], a) == 0) { free(names[i]); names[i] = strdup(b); } }
int rename(const char *a, const char *b) {
  REAL("rename", int (*)(const char *, const char *));
  if (!inside(a)) return real(a, b);
  pthread_mutex_lock(&mu);
  if (faulty(K_RENAME, a)) { pthread_mutex_unlock(&mu); errno = fail_errno; return -1; }
  int r = real(a, b);
  int e = errno;
  if (r == 0) { renamed(a, b); record(K_RENAME, a, b, 0, 0, 0); }
  pthread_mutex_unlock(&mu);
  errno = e;
  return r;
}
NAMED(unlink, K_UNLINK, (const char *a), a, 0, a)
NAMED(mkdir, K_MKDIR, (const char *a, mode_t m), a, 0, a, m)
NAMED(rmdir, K_UNLINK, (const char *a), a, 0, a)
int fallocate(int fd, int mode, off_t off, off_t len) { (void)fd; (void)mode; (void)off; (void)len; return 0; }
int fallocate64(int fd, int mode, off64_t off, off64_t len) { (void)fd; (void)mode; (void)off; (void)len; return 0; }
int posix_fallocate(int fd, off_t off, off_t len) { (void)fd; (void)off; (void)len; return 0; }
int sync_file_range(int fd, off64_t a, off64_t b, unsigned f) { (void)fd; (void)a; (void)b; (void)f; return 0; }
// RocksDB as it is installed here is built with its assertions: syncing a log whose last write failed
// ends the process, where a release build returns the error. Leave the call out after a fault.
void rocksdb_transactiondb_flush_wal(void *db, unsigned char sync, char **err) {
  REAL("rocksdb_transactiondb_flush_wal", void (*)(void *, unsigned char, char **));
  if (!fired) real(db, sync, err);
}
