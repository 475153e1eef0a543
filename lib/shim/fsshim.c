/* Records every operation of this process that changes files of one directory, and on request ends the process or
   makes operations fail from the n-th on.  Preloaded; controlled by fsshim_set(), inherited by forked children. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/types.h>

static char dir[PATH_MAX]; static size_t dlen = 0;
static int logfd = -1; static long fault_at = 0, count = 0; static int mode = 0;   /* 1: killed before, 2: fails once, 3: fails from there on */
static char watched[4096];

void fsshim_set(const char *d, const char *log, long n, int m) {
  if (logfd >= 0) syscall(SYS_close, logfd);
  memset(watched, 0, sizeof watched);
  count = 0; fault_at = n; mode = m;
  if (!d || !*d) { dlen = 0; logfd = -1; return; }
  strncpy(dir, d, PATH_MAX - 1); dlen = strlen(dir);
  logfd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}
long fsshim_count(void) { return count; }
/* absolute form of a path, without following anything but the working directory */
static const char *absolute(int at, const char *p, char *buf) {
  if (p[0] == '/') return p;
  char base[PATH_MAX];
  if (at == AT_FDCWD) { if (!getcwd(base, sizeof base)) return p; }
  else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", at); ssize_t n = readlink(l, base, sizeof base - 1); if (n < 0) return p; base[n] = 0; }
  while (p[0] == '.' && p[1] == '/') p += 2;
  snprintf(buf, PATH_MAX, "%s/%s", base, p);
  return buf;
}
static const char *inside(int at, const char *p, char *buf) {
  if (!dlen || !p) return 0;
  const char *a = absolute(at, p, buf);
  if (strncmp(a, dir, dlen) || a[dlen] != '/') return 0;
  return a + dlen + 1;
}
/* before an operation: 1 if it must fail */
static int fault(void) {
  count++;
  if (!fault_at || count < fault_at) return 0;
  if (mode == 1) { kill(getpid(), SIGKILL); for (;;) pause(); }
  if (mode == 2) return count == fault_at;
  return mode == 3;
}
static void note(const char *op, const char *a, const char *b, unsigned long ino) {
  char line[2 * PATH_MAX + 64];
  int n = snprintf(line, sizeof line, "%s\t%s\t%s\t%lu\n", op, a ? a : "", b ? b : "", ino);
  if (logfd >= 0) { long r = syscall(SYS_write, logfd, line, n); (void) r; }
}
static unsigned long ino_of(int fd) { struct stat s; return fstat(fd, &s) ? 0 : (unsigned long) s.st_ino; }
static unsigned long ino_at(int at, const char *p) { struct stat s; return fstatat(at, p, &s, AT_SYMLINK_NOFOLLOW) ? 0 : (unsigned long) s.st_ino; }
#define REAL(name) static __typeof__(name) *real = 0; if (!real) real = dlsym(RTLD_NEXT, #name)
#define FAIL do { errno = ENOSPC; return -1; } while (0)

static void opened(int at, const char *p, int flags, int fd, int existed) {
  char buf[PATH_MAX]; const char *in = inside(at, p, buf);
  if (!in || fd < 0 || fd >= (int) sizeof watched) return;
  if ((flags & O_ACCMODE) == O_RDONLY) return;
  watched[fd] = 1;
  if (!existed) note("create", in, 0, ino_of(fd));
  else if (flags & O_TRUNC) note("write", in, 0, ino_of(fd));
}
#define OPEN(name, at, ATARG, CALL) \
  { REAL(name); mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    char buf[PATH_MAX]; int existed = 1; \
    if ((flags & O_ACCMODE) != O_RDONLY && inside(at, p, buf)) { existed = ino_at(at, p) != 0; if (!existed || (flags & O_TRUNC)) if (fault()) FAIL; } \
    int fd = CALL; int e = errno; if (fd >= 0) opened(at, p, flags, fd, existed); errno = e; return fd; }
int open(const char *p, int flags, ...) OPEN(open, AT_FDCWD, , real(p, flags, m))
int open64(const char *p, int flags, ...) OPEN(open64, AT_FDCWD, , real(p, flags, m))
int openat(int at, const char *p, int flags, ...) OPEN(openat, at, , real(at, p, flags, m))
int openat64(int at, const char *p, int flags, ...) OPEN(openat64, at, , real(at, p, flags, m))
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *fopen64(const char *p, const char *md);
static int fflags(const char *md) { int plus = strchr(md, '+') != 0; return md[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (md[0] == 'w' ? O_TRUNC : O_APPEND); }
#define FOPEN(name) FILE *name(const char *p, const char *md) { REAL(name); int flags = fflags(md), existed = ino_at(AT_FDCWD, p) != 0; char buf[PATH_MAX]; \
  if ((flags & O_ACCMODE) != O_RDONLY && inside(AT_FDCWD, p, buf) && fault()) { errno = ENOSPC; return 0; } \
  FILE *f = real(p, md); if (f) opened(AT_FDCWD, p, flags, fileno(f), existed); return f; }
FOPEN(fopen) FOPEN(fopen64)
static int is_watched(int fd) { return dlen && fd >= 0 && fd < (int) sizeof watched && watched[fd]; }
#define WROTE(fd) note("write", 0, 0, ino_of(fd))
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (!is_watched(fd)) return real(fd, b, n); if (fault()) FAIL; ssize_t r = real(fd, b, n); int e = errno; WROTE(fd); errno = e; return r; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); if (!is_watched(fd)) return real(fd, b, n, o); if (fault()) FAIL; ssize_t r = real(fd, b, n, o); int e = errno; WROTE(fd); errno = e; return r; }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (!is_watched(fd)) return real(fd, b, n, o); if (fault()) FAIL; ssize_t r = real(fd, b, n, o); int e = errno; WROTE(fd); errno = e; return r; }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); if (!is_watched(fd)) return real(fd, v, n); if (fault()) FAIL; ssize_t r = real(fd, v, n); int e = errno; WROTE(fd); errno = e; return r; }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { REAL(fwrite); if (!is_watched(fileno(f))) return real(b, s, n, f); if (fault()) { errno = ENOSPC; return 0; } size_t r = real(b, s, n, f); WROTE(fileno(f)); return r; }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (!is_watched(fd)) return real(fd, n); if (fault()) FAIL; struct stat s; int same = !fstat(fd, &s) && s.st_size == n; int r = real(fd, n); if (!same) WROTE(fd); return r; }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (!is_watched(fd)) return real(fd, n); if (fault()) FAIL; struct stat s; int same = !fstat(fd, &s) && s.st_size == n; int r = real(fd, n); if (!same) WROTE(fd); return r; }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { REAL(sendfile); if (!is_watched(o)) return real(o, i, p, n); if (fault()) FAIL; ssize_t r = real(o, i, p, n); int e = errno; if (r > 0) WROTE(o); errno = e; return r; }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(sendfile64); if (!is_watched(o)) return real(o, i, p, n); if (fault()) FAIL; ssize_t r = real(o, i, p, n); int e = errno; if (r > 0) WROTE(o); errno = e; return r; }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(copy_file_range); if (!is_watched(o)) return real(i, a, o, b, n, f); if (fault()) FAIL; ssize_t r = real(i, a, o, b, n, f); int e = errno; if (r > 0) WROTE(o); errno = e; return r; }
int close(int fd) { REAL(close); if (is_watched(fd)) { note("close", 0, 0, ino_of(fd)); watched[fd] = 0; } return real(fd); }
int dup2(int a, int b) { REAL(dup2); int r = real(a, b); if (r >= 0 && r < (int) sizeof watched) watched[r] = is_watched(a); return r; }
int dup(int a) { REAL(dup); int r = real(a); if (r >= 0 && r < (int) sizeof watched) watched[r] = is_watched(a); return r; }
static int moved(const char *op, int a1, const char *p1, int a2, const char *p2, unsigned long ino) {
  char b1[PATH_MAX], b2[PATH_MAX]; const char *x = inside(a1, p1, b1), *y = inside(a2, p2, b2);
  if (x || y) note(op, x ? x : "", y ? y : "", ino);
  return 0;
}
#define TOUCHES2(a1, p1, a2, p2) (dlen && (inside(a1, p1, (char[PATH_MAX]){0}) || inside(a2, p2, (char[PATH_MAX]){0})))
#define TWO(name, PARAMS, ARGS, op, a1, p1, a2, p2) int name PARAMS { REAL(name); if (!TOUCHES2(a1, p1, a2, p2)) return real ARGS; if (fault()) FAIL; \
  unsigned long i = ino_at(a1, p1); int r = real ARGS; int e = errno; if (!r) moved(op, a1, p1, a2, p2, i); errno = e; return r; }
TWO(rename, (const char *a, const char *b), (a, b), "rename", AT_FDCWD, a, AT_FDCWD, b)
TWO(renameat, (int x, const char *a, int y, const char *b), (x, a, y, b), "rename", x, a, y, b)
TWO(renameat2, (int x, const char *a, int y, const char *b, unsigned f), (x, a, y, b, f), "rename", x, a, y, b)
TWO(link, (const char *a, const char *b), (a, b), "link", AT_FDCWD, a, AT_FDCWD, b)
TWO(linkat, (int x, const char *a, int y, const char *b, int f), (x, a, y, b, f), "link", x, a, y, b)
int symlink(const char *a, const char *b) { REAL(symlink); char buf[PATH_MAX]; const char *y = inside(AT_FDCWD, b, buf); if (!y) return real(a, b); if (fault()) FAIL;
  int r = real(a, b); if (!r) note("link", 0, y, ino_at(AT_FDCWD, a)); return r; }
#define UNLINK(name, PARAMS, ARGS, at, p) int name PARAMS { REAL(name); char buf[PATH_MAX]; const char *x = inside(at, p, buf); if (!x) return real ARGS; if (fault()) FAIL; \
  int r = real ARGS; int e = errno; if (!r) note("unlink", x, 0, 0); errno = e; return r; }
UNLINK(unlink, (const char *p), (p), AT_FDCWD, p)
UNLINK(remove, (const char *p), (p), AT_FDCWD, p)
UNLINK(unlinkat, (int at, const char *p, int f), (at, p, f), at, p)
int truncate(const char *p, off_t n) { REAL(truncate); char buf[PATH_MAX]; const char *x = inside(AT_FDCWD, p, buf); if (!x) return real(p, n); if (fault()) FAIL; int r = real(p, n); note("write", x, 0, ino_at(AT_FDCWD, p)); return r; }
int truncate64(const char *p, off64_t n) { REAL(truncate64); char buf[PATH_MAX]; const char *x = inside(AT_FDCWD, p, buf); if (!x) return real(p, n); if (fault()) FAIL; int r = real(p, n); note("write", x, 0, ino_at(AT_FDCWD, p)); return r; }
