// Preloaded into the real program: every libc call through which it meets the outside world
// follows a plan given in the environment.
//   SYNSIM_PLAN  = "<hash key> <item> <item> ..."
//   SYNSIM_LOG   = file receiving one line per injected fault and, at exit, the call counts
// items: X:n:a:b   fault X at the n-th (from 0) call of its class, or for every call when n = -1
//   rs short read of at most a bytes      ri read interrupted a times    re read fails with errno a
//   ws short write of at most a bytes     wi write interrupted a times   we write fails with errno a
//   wf room for a bytes in total, then disk full     wx crash in the write after a bytes
//   oe open fails with errno a            ox crash before the open       de directory call fails with errno a
//   fe, fx rename, unlink, sync or truncate: see below
//   se stat fails with errno a            rx crash before the read       me allocation fails
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#include <dirent.h>
#include <stdarg.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>

struct item { char a, b; int said; long n, p; };
static struct item plan[16]; static int nplan;
static uint64_t key;
static int logfd = -1, ready;
static long n_read, n_write, n_open, n_dir, n_stat, n_mem, n_rand, n_file, wrote, eintr_left, weintr_left;
static unsigned char ours[1024]; // descriptors opened by the program through us

static long raw(long n, long a, long b, long c, long d) {
  long r; register long r10 __asm__("r10") = d;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
static void put(const char *s) { if (logfd >= 0) raw(SYS_write, logfd, (long)s, strlen(s), 0); }
static char *num(char *p, long v) { char t[24]; int i = 0; if (v < 0) { *p++ = '-'; v = -v; } do t[i++] = '0' + v % 10; while (v /= 10); while (i) *p++ = t[--i]; *p = 0; return p; }
static void say(const char *kind, long at, long v) { char b[96]; strcpy(b, "F "); strcat(b, kind); char *p = b + strlen(b); *p++ = ' '; p = num(p, at); *p++ = ' '; p = num(p, v); *p++ = '\n'; *p = 0; put(b); }
static struct item *due(char a, char b, long n) { for (int i = 0; i < nplan; i++) if (plan[i].a == a && plan[i].b == b && (plan[i].n == n || plan[i].n == -1)) return &plan[i]; return 0; }
static void once(struct item *i, const char *k, long at) { if (!i->said++) say(k, at, i->p); }
static void crash(void) { raw(SYS_exit_group, 97, 0, 0, 0); }

static long parse(const char **s) { long v = 0, g = 1; if (**s == '-') { g = -1; ++*s; } while (**s >= '0' && **s <= '9') v = v * 10 + *(*s)++ - '0'; return g * v; }
__attribute__((constructor)) static void start(void) {
  const char *s = getenv("SYNSIM_PLAN"), *l = getenv("SYNSIM_LOG");
  if (!s || !l) return;
  logfd = raw(SYS_openat, AT_FDCWD, (long)l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  if (logfd >= 0) { raw(SYS_dup3, logfd, 900, O_CLOEXEC, 0); raw(SYS_close, logfd, 0, 0, 0); logfd = 900; }
  key = parse(&s);
  while (*s == ' ' && nplan < 16) {
    s++; struct item *i = &plan[nplan]; i->a = *s++; if (!*s) break; i->b = *s++;
    if (*s == ':') s++;
    i->n = parse(&s);
    if (*s == ':') s++;
    i->p = parse(&s); nplan++;
  }
  struct rlimit r = {10, 10}; setrlimit(RLIMIT_CPU, &r);
  unsetenv("LD_PRELOAD");
  ready = 1;
}
__attribute__((destructor)) static void stop(void) {
  if (!ready) return;
  ready = 0;
  char b[256], *p = b; *p++ = 'C';
  long v[] = {n_read, n_write, n_open, n_dir, n_stat, n_mem, n_rand, wrote};
  for (unsigned i = 0; i < sizeof v / sizeof *v; i++) { *p++ = ' '; p = num(p, v[i]); }
  *p++ = '\n'; *p = 0; put(b);
}

static int mine(const char *p) { return strncmp(p, "/proc", 5) && strncmp(p, "/sys", 4) && strncmp(p, "/dev", 4) && strncmp(p, "/etc", 4); }
static int do_open(int d, const char *path, int flags, int mode) {
  if (!ready || !mine(path)) return ret(raw(SYS_openat, d, (long)path, flags, mode));
  long n = n_open++; struct item *i;
  if ((i = due('o', 'x', n))) { say("crash-before-open", n, 0); crash(); }
  if ((i = due('o', 'e', n))) { say("open-error", n, i->p); errno = i->p; return -1; }
  int fd = ret(raw(SYS_openat, d, (long)path, flags, mode));
  if (fd >= 0 && fd < 1024) ours[fd] = 1;
  return fd;
}
#define MODE va_list ap; va_start(ap, flags); int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap)
int open(const char *p, int flags, ...) { MODE; return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE; return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE; return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE; return do_open(d, p, flags | O_LARGEFILE, mode); }
int close(int fd) { if (fd >= 0 && fd < 1024) ours[fd] = 0; return ret(raw(SYS_close, fd, 0, 0, 0)); }

ssize_t read(int fd, void *buf, size_t len) {
  if (!ready || fd < 0 || fd >= 1024 || !ours[fd]) return ret(raw(SYS_read, fd, (long)buf, len, 0));
  if (eintr_left > 0) { eintr_left--; errno = EINTR; return -1; }
  long n = n_read++; struct item *i;
  if ((i = due('r', 'x', n))) { say("crash-before-read", n, 0); crash(); }
  if ((i = due('r', 'i', n))) { once(i, "read-eintr", n); eintr_left = i->p - 1; errno = EINTR; if (i->n == -1) { n_read--; i->b = 'I'; } return -1; }
  for (int k = 0; k < nplan; k++) if (plan[k].a == 'r' && plan[k].b == 'I') plan[k].b = 'i';
  if ((i = due('r', 'e', n))) { say("read-error", n, i->p); errno = i->p; return -1; }
  if ((i = due('r', 's', n)) && (long)len > i->p && i->p > 0) { once(i, "short-read", n); len = i->p; }
  return ret(raw(SYS_read, fd, (long)buf, len, 0));
}
ssize_t write(int fd, const void *buf, size_t len) {
  if (!ready || fd == 2 || fd < 0 || fd >= 1024 || (fd != 1 && !ours[fd])) return ret(raw(SYS_write, fd, (long)buf, len, 0));
  if (weintr_left > 0) { weintr_left--; errno = EINTR; return -1; }
  long n = n_write++; struct item *i;
  if ((i = due('w', 'x', n))) { long k = i->p < (long)len ? i->p : (long)len; say("crash-in-write", n, k); if (k) raw(SYS_write, fd, (long)buf, k, 0); crash(); }
  if ((i = due('w', 'i', n))) { once(i, "write-eintr", n); weintr_left = i->p - 1; errno = EINTR; if (i->n == -1) { n_write--; i->b = 'I'; } return -1; }
  for (int k = 0; k < nplan; k++) if (plan[k].a == 'w' && plan[k].b == 'I') plan[k].b = 'i';
  if ((i = due('w', 'e', n))) { say("write-error", n, i->p); errno = i->p; return -1; }
  if ((i = due('w', 's', n)) && (long)len > i->p && i->p > 0) { once(i, "short-write", n); len = i->p; }
  if ((i = due('w', 'f', -1)) && fd != 1) {
    long room = i->p - wrote;
    if ((long)len > room) { say("disk-full", n, room); if (room <= 0) { errno = ENOSPC; return -1; } len = room; }
  }
  long r = ret(raw(SYS_write, fd, (long)buf, len, 0));
  if (r > 0 && fd != 1) wrote += r;
  return r;
}
// operations the program does not use today
//   fe fails with errno a     fx crash before it
static int fileop(const char *what) {
  if (!ready) return 0;
  long n = n_file++; struct item *i;
  if ((i = due('f', 'x', n))) { say("crash-before-file-operation", n, 0); crash(); }
  if ((i = due('f', 'e', n))) { say("file-operation-error", n, i->p); errno = i->p; return 1; }
  (void)what; return 0;
}
int rename(const char *a, const char *b) { return fileop(b) ? -1 : ret(raw(SYS_rename, (long)a, (long)b, 0, 0)); }
int unlink(const char *a) { return fileop(a) ? -1 : ret(raw(SYS_unlink, (long)a, 0, 0, 0)); }
int fsync(int fd) { return fileop("") ? -1 : ret(raw(SYS_fsync, fd, 0, 0, 0)); }
int fdatasync(int fd) { return fileop("") ? -1 : ret(raw(SYS_fdatasync, fd, 0, 0, 0)); }
int ftruncate64(int fd, off_t n) { return fileop("") ? -1 : ret(raw(SYS_ftruncate, fd, n, 0, 0)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t at) { if (ready && fd >= 0 && fd < 1024 && ours[fd] && raw(SYS_lseek, fd, at, SEEK_SET, 0) == at) return write(fd, b, n); return ret(raw(SYS_pwrite64, fd, (long)b, n, at)); }
ssize_t pread64(int fd, void *b, size_t n, off_t at) { if (ready && fd >= 0 && fd < 1024 && ours[fd] && raw(SYS_lseek, fd, at, SEEK_SET, 0) == at) return read(fd, b, n); return ret(raw(SYS_pread64, fd, (long)b, n, at)); }
ssize_t readv(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t writev(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }

static int dirfault(void) { long n = n_dir++; struct item *i = due('d', 'e', n); if (i) { say("directory-error", n, i->p); errno = i->p; return 1; } return 0; }
DIR *opendir(const char *p) { static DIR *(*f)(const char *); if (!f) f = dlsym(RTLD_NEXT, "opendir"); if (ready && mine(p) && dirfault()) return 0; return f(p); }
struct dirent64 *readdir64(DIR *d) { static struct dirent64 *(*f)(DIR *); if (!f) f = dlsym(RTLD_NEXT, "readdir64"); if (ready && dirfault()) return 0; return f(d); }
int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict b) {
  if (ready && (!*p || mine(p))) { long n = n_stat++; struct item *i = due('s', 'e', n); if (i) { say("stat-error", n, i->p); errno = i->p; return -1; } }
  static int (*f)(int, const char *restrict, int, unsigned, struct statx *restrict); if (!f) f = dlsym(RTLD_NEXT, "statx");
  return f(d, p, fl, m, b);
}
ssize_t getrandom(void *buf, size_t len, unsigned fl) {
  if (!ready) return ret(raw(SYS_getrandom, (long)buf, len, fl, 0));
  n_rand++;
  unsigned char *b = buf; uint64_t x = key * 0x9E3779B97F4A7C15ull + n_rand;
  for (size_t i = 0; i < len; i++) { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; b[i] = (x * 0x2545F4914F6CDD1Dull) >> 56; x += 0x632BE59BD9B4E019ull; }
  return len;
}
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static int memfault(void) { if (!ready) return 0; long n = n_mem++; if (due('m', 'e', n)) { say("allocation-failure", n, 0); return 1; } return 0; }
void *malloc(size_t n) { return memfault() ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return memfault() ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return memfault() ? 0 : __libc_realloc(p, n); }
