/* Crash-point injector: counts the calls that change files below a prefix and
 * ends the process (like SIGKILL) at a chosen one, optionally after writing
 * only a part of the data. Inert until gwmc_arm() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static size_t plen;
static long target = -1, counter = 0;
static int variant = 0, armed = 0;
static char tracked[65536];
static char kinds[65536];

void gwmc_arm(const char *p, long k, int v) {
  strncpy(prefix, p, sizeof prefix - 1);
  plen = strlen(prefix);
  target = k; variant = v; counter = 0; armed = 1;
  memset(tracked, 0, sizeof tracked);
}
void gwmc_disarm(void) { armed = 0; }
long gwmc_count(void) { return counter; }
const char *gwmc_kinds(void) { kinds[counter < 65535 ? counter : 65535] = 0; return kinds; }

static int under(int dirfd, const char *path) {
  char buf[PATH_MAX];
  if (!armed || !path) return 0;
  if (path[0] != '/') {
    if (dirfd != AT_FDCWD) {
      char ln[64]; snprintf(ln, sizeof ln, "/proc/self/fd/%d", dirfd);
      ssize_t n = readlink(ln, buf, sizeof buf - 1);
      if (n < 0) return 0;
      buf[n] = 0;
    } else if (!getcwd(buf, sizeof buf)) return 0;
    size_t n = strlen(buf);
    snprintf(buf + n, sizeof buf - n, "/%s", path);
    path = buf;
  }
  return strncmp(path, prefix, plen) == 0;
}
/* returns 1 when this event is the crash point */
static int event(char kind) {
  long me = counter++;
  if (me < 65535) kinds[me] = kind;
  return me == target;
}
static void die(void) { _exit(137); }

#define REAL(name) static __typeof__(name) *real; \
  if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static void note(int fd, int on) { if (fd >= 0 && fd < 65536) tracked[fd] = on; }
static int isw(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

#define OPENBODY(callexpr, dfd) \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  int u = under(dfd, path) && isw(flags); \
  if (u && event('o')) die(); \
  int fd = callexpr; \
  if (armed) note(fd, u && fd >= 0); \
  return fd;

int open(const char *path, int flags, ...) { REAL(open); OPENBODY(real(path, flags, mode), AT_FDCWD) }
int open64(const char *path, int flags, ...) { REAL(open64); OPENBODY(real(path, flags, mode), AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); OPENBODY(real(d, path, flags, mode), d) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); OPENBODY(real(d, path, flags, mode), d) }
int creat(const char *path, mode_t m) { REAL(creat); int u = under(AT_FDCWD, path); if (u && event('o')) die(); int fd = real(path, m); if (armed) note(fd, u); return fd; }
FILE *fopen(const char *path, const char *m) { REAL(fopen); int u = under(AT_FDCWD, path) && m[0] != 'r'; if (u && event('o')) die(); FILE *f = real(path, m); if (armed && f) note(fileno(f), u); return f; }
FILE *fopen64(const char *path, const char *m) { REAL(fopen64); int u = under(AT_FDCWD, path) && m[0] != 'r'; if (u && event('o')) die(); FILE *f = real(path, m); if (armed && f) note(fileno(f), u); return f; }

static int tr(int fd) { return armed && fd >= 0 && fd < 65536 && tracked[fd]; }
static size_t part(size_t n) {
  if (variant == 1) return n / 2;
  if (variant == 2) return n ? n - 1 : 0;
  return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (tr(fd) && event('w')) { size_t k = part(n); if (k) real(fd, b, k); die(); }
  return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(pwrite);
  if (tr(fd) && event('w')) { size_t k = part(n); if (k) real(fd, b, k, o); die(); }
  return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64);
  if (tr(fd) && event('w')) { size_t k = part(n); if (k) real(fd, b, k, o); die(); }
  return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(writev);
  if (tr(fd) && event('w')) { if (variant && c > 0) real(fd, v, c > 1 ? c / 2 : 1); die(); }
  return real(fd, v, c);
}
int close(int fd) { REAL(close); if (fd >= 0 && fd < 65536) tracked[fd] = 0; return real(fd); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (tr(fd) && event('t')) die(); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (tr(fd) && event('t')) die(); return real(fd, n); }
int truncate(const char *p, off_t n) { REAL(truncate); if (under(AT_FDCWD, p) && event('t')) die(); return real(p, n); }
int rename(const char *a, const char *b) { REAL(rename); if ((under(AT_FDCWD, a) || under(AT_FDCWD, b)) && event('r')) die(); return real(a, b); }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(renameat); if ((under(d1, a) || under(d2, b)) && event('r')) die(); return real(d1, a, d2, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { REAL(renameat2); if ((under(d1, a) || under(d2, b)) && event('r')) die(); return real(d1, a, d2, b, f); }
int link(const char *a, const char *b) { REAL(link); if (under(AT_FDCWD, b) && event('l')) die(); return real(a, b); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { REAL(linkat); if (under(d2, b) && event('l')) die(); return real(d1, a, d2, b, f); }
int symlink(const char *a, const char *b) { REAL(symlink); if (under(AT_FDCWD, b) && event('l')) die(); return real(a, b); }
int unlink(const char *p) { REAL(unlink); if (under(AT_FDCWD, p) && event('u')) die(); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); if (under(d, p) && event('u')) die(); return real(d, p, f); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (under(AT_FDCWD, p) && event('m')) die(); return real(p, m); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { REAL(sendfile); if (tr(o) && event('w')) { size_t k = part(n); if (k) real(o, i, off, k); die(); } return real(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(sendfile64); if (tr(o) && event('w')) { size_t k = part(n); if (k) real(o, i, off, k); die(); } return real(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { REAL(copy_file_range); if (tr(o) && event('w')) { size_t k = part(n); if (k) real(i, io, o, oo, k, f); die(); } return real(i, io, o, oo, n, f); }
