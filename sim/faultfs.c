/* LD_PRELOAD shim: every system call on files below the armed prefixes is one numbered operation; rules decide what
   happens to it.  Passive until ffs_arm() is called (through ctypes, in the forked run).

   rules, one per line:  <kind|*> <nth from 1> <n|+> <action> <arg> [path]
     kind    open read write close fsync trunc rename unlink mkdir
     n|+     only the nth operation of that kind, or from the nth on
     action  errno E | short N | eof 0 | crash 0 | crashmid N | crashafter 0 | swap 0 PATH | quota N
   log, one line per operation: <seq> <kind> <fd> <result> <errno> <offset> <path> [hex data of a write | new path] */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
#define MAXRULE 64
enum { K_ANY, K_OPEN, K_READ, K_WRITE, K_CLOSE, K_FSYNC, K_TRUNC, K_RENAME, K_UNLINK, K_MKDIR, K_N };
static const char *KN[] = { "*", "open", "read", "write", "close", "fsync", "trunc", "rename", "unlink", "mkdir" };
enum { A_ERRNO, A_SHORT, A_EOF, A_CRASH, A_CRASHMID, A_CRASHAFTER, A_SWAP, A_QUOTA };
static const char *AN[] = { "errno", "short", "eof", "crash", "crashmid", "crashafter", "swap", "quota" };
struct rule { int kind, nth, on, action; long arg; char path[512]; long hits; };
static struct rule rules[MAXRULE];
static int nrules, armed, logfd = -1, busy;
static char prefix[4][PATH_MAX];
static int nprefix;
static char *fdpath[MAXFD];
static int counts[K_N];
static long seq, written, fired;
static long clock_off;

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__); \
  if (!r_##name) r_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static long sys(long n, long a, long b, long c, long d) { return syscall(n, a, b, c, d); }

void ffs_clock(long off) { clock_off = off; }
long ffs_count(int kind) { return kind < K_N ? counts[kind] : 0; }
long ffs_seq(void) { return seq; }
long ffs_fired(void) { return fired; }
long ffs_rule_hits(int i) { return i < nrules ? rules[i].hits : 0; }
void ffs_disarm(void) { armed = 0; if (logfd >= 0) sys(SYS_close, logfd, 0, 0, 0); logfd = -1; }

int ffs_arm(const char *prefixes, const char *plan, const char *log)
{
  nrules = nprefix = 0; seq = written = fired = 0;
  memset(counts, 0, sizeof counts);
  char *copy = strdup(prefixes), *sv = NULL;
  for (char *p = strtok_r(copy, "\n", &sv); p && nprefix < 4; p = strtok_r(NULL, "\n", &sv))
    snprintf(prefix[nprefix++], PATH_MAX, "%s", p);
  free(copy);
  copy = strdup(plan);
  for (char *p = strtok_r(copy, "\n", &sv); p && nrules < MAXRULE; p = strtok_r(NULL, "\n", &sv)) {
    struct rule *r = &rules[nrules];
    char k[32], on[8], a[32];
    r->path[0] = 0; r->hits = 0;
    if (sscanf(p, "%31s %d %7s %31s %ld %511s", k, &r->nth, on, a, &r->arg, r->path) < 5) continue;
    r->on = on[0] == '+';
    r->kind = r->action = -1;
    for (int i = 0; i < K_N; i++) if (!strcmp(k, KN[i])) r->kind = i;
    for (int i = 0; i < 8; i++) if (!strcmp(a, AN[i])) r->action = i;
    if (r->kind >= 0 && r->action >= 0) nrules++;
  }
  free(copy);
  for (int i = 0; i < MAXFD; i++) { free(fdpath[i]); fdpath[i] = NULL; }
  logfd = log && *log ? sys(SYS_open, (long)log, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600, 0) : -1;
  if (logfd >= 0) { int hi = sys(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 900, 0); if (hi >= 0) { sys(SYS_close, logfd, 0, 0, 0); logfd = hi; } }
  armed = 1;
  return nrules;
}

static int tracked(int dirfd, const char *path, char *out)
{
  if (!armed || busy || !path) return 0;
  if (path[0] == '/') snprintf(out, PATH_MAX, "%s", path);
  else if (dirfd == AT_FDCWD) {
    char cwd[PATH_MAX];
    if (sys(SYS_getcwd, (long)cwd, sizeof cwd, 0, 0) < 0) return 0;
    if (snprintf(out, PATH_MAX, "%s/%s", cwd, path) >= PATH_MAX) return 0;
  } else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) {
    if (snprintf(out, PATH_MAX, "%s/%s", fdpath[dirfd], path) >= PATH_MAX) return 0;
  } else return 0;
  for (int i = 0; i < nprefix; i++) {
    size_t n = strlen(prefix[i]);
    if (!strncmp(out, prefix[i], n) && (out[n] == '/' || out[n] == 0)) return 1;
  }
  return 0;
}
static int tracked_fd(int fd) { return armed && !busy && fd >= 0 && fd < MAXFD && fdpath[fd]; }

static void note(int kind, int fd, long res, int err, long off, const char *path, const void *data, long n, const char *p2)
{
  if (logfd < 0) return;
  char b[2 * PATH_MAX + 200], esc[PATH_MAX], esc2[PATH_MAX];
  if (path) { snprintf(esc, sizeof esc, "%s", path); for (char *q = esc; *q; q++) if (*q == ' ' || *q == '\n') *q = 1; path = esc; }
  if (p2) { snprintf(esc2, sizeof esc2, "%s", p2); for (char *q = esc2; *q; q++) if (*q == ' ' || *q == '\n') *q = 1; p2 = esc2; }
  int k = snprintf(b, sizeof b, "%ld %s %d %ld %d %ld %s ", seq, KN[kind], fd, res, err, off, path ? path : "?");
  sys(SYS_write, logfd, (long)b, k, 0);
  if (p2) sys(SYS_write, logfd, (long)p2, strlen(p2), 0);
  const unsigned char *d = data;
  for (long i = 0; i < n; ) {
    char h[4096]; int m = 0;
    while (i < n && m < 4090) { h[m++] = "0123456789abcdef"[d[i] >> 4]; h[m++] = "0123456789abcdef"[d[i] & 15]; i++; }
    sys(SYS_write, logfd, (long)h, m, 0);
  }
  sys(SYS_write, logfd, (long)"\n", 1, 0);
}

static void swap_in(const char *from, const char *to)
{
  char b[65536]; long n;
  int i = sys(SYS_open, (long)from, O_RDONLY, 0, 0), o = sys(SYS_open, (long)to, O_WRONLY | O_TRUNC, 0, 0);
  if (i >= 0 && o >= 0) while ((n = sys(SYS_read, i, (long)b, sizeof b, 0)) > 0) sys(SYS_write, o, (long)b, n, 0);
  if (i >= 0) sys(SYS_close, i, 0, 0, 0);
  if (o >= 0) sys(SYS_close, o, 0, 0, 0);
}

/* what happens to this operation: rule or NULL */
static struct rule *decide(int kind, const char *path)
{
  seq++; counts[K_ANY]++; counts[kind]++;
  for (int i = 0; i < nrules; i++) {
    struct rule *r = &rules[i];
    if (r->kind != K_ANY && r->kind != kind) continue;
    if (r->action == A_QUOTA) { if (kind == K_WRITE) return r; continue; }
    int c = counts[r->kind];
    if (r->on ? c < r->nth : c != r->nth) continue;
    if ((r->action == A_SHORT) && kind != K_READ && kind != K_WRITE) continue;
    if (r->action == A_EOF && kind != K_READ) continue;
    fired++; r->hits++;
    if (r->action == A_CRASH) { note(kind, -1, -1, 0, -1, path, NULL, 0, "CRASH"); _exit(137); }
    if (r->action == A_SWAP) { swap_in(r->path, path); continue; }
    return r;
  }
  return NULL;
}
static void after(struct rule *r) { if (r && (r->action == A_CRASHAFTER || r->action == A_CRASHMID)) _exit(137); }

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
  char full[PATH_MAX];
  if (!tracked(dirfd, path, full)) return syscall(SYS_openat, dirfd, path, flags, mode);
  struct rule *r = decide(K_OPEN, full);
  int fd;
  if (r && r->action == A_ERRNO) { note(K_OPEN, -1, -1, r->arg, flags, full, NULL, 0, NULL); errno = r->arg; return -1; }
  fd = syscall(SYS_openat, dirfd, path, flags, mode);
  int e = errno;
  note(K_OPEN, fd, fd, fd < 0 ? e : 0, flags, full, NULL, 0, NULL);
  if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(full); }
  after(r);
  errno = e;
  return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t rd(int fd, void *b, size_t n, long off)
{
  if (!tracked_fd(fd)) return off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
  struct rule *r = decide(K_READ, fdpath[fd]);
  if (r && r->action == A_ERRNO) { note(K_READ, fd, -1, r->arg, off, fdpath[fd], NULL, 0, NULL); errno = r->arg; return -1; }
  if (r && r->action == A_EOF) { note(K_READ, fd, 0, 0, off, fdpath[fd], NULL, 0, NULL); return 0; }
  if (r && r->action == A_SHORT && (long)n > r->arg && r->arg > 0) n = r->arg;
  ssize_t k = off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
  int e = errno;
  note(K_READ, fd, k, k < 0 ? e : 0, off, fdpath[fd], NULL, 0, NULL);
  after(r);
  errno = e;
  return k;
}
ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return rd(fd, b, n, o); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return rd(fd, b, n, -1); }
ssize_t readv(int fd, const struct iovec *v, int c)
{ if (!tracked_fd(fd)) return syscall(SYS_readv, fd, v, c); return c ? rd(fd, v[0].iov_base, v[0].iov_len, -1) : 0; }

static ssize_t wr(int fd, const void *b, size_t n, long off)
{
  if (!tracked_fd(fd)) return off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
  struct rule *r = decide(K_WRITE, fdpath[fd]);
  int app = syscall(SYS_fcntl, fd, F_GETFL) & O_APPEND;
  long at = off >= 0 ? off : syscall(SYS_lseek, fd, 0, app ? SEEK_END : SEEK_CUR);
  if (r && r->action == A_ERRNO) { note(K_WRITE, fd, -1, r->arg, at, fdpath[fd], NULL, 0, NULL); errno = r->arg; return -1; }
  if (r && r->action == A_QUOTA) {
    if (written >= r->arg && n) { r->hits++; fired++; note(K_WRITE, fd, -1, ENOSPC, at, fdpath[fd], NULL, 0, NULL); errno = ENOSPC; return -1; }
    if (written + (long)n > r->arg) { n = r->arg - written; r->hits++; fired++; }
  }
  if (r && (r->action == A_SHORT || r->action == A_CRASHMID) && (long)n > r->arg && r->arg >= 0) n = r->arg;
  ssize_t k = off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
  int e = errno;
  if (k > 0) written += k;
  note(K_WRITE, fd, k, k < 0 ? e : 0, at, fdpath[fd], b, k > 0 ? k : 0, NULL);
  after(r);
  errno = e;
  return k;
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return wr(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{ if (!tracked_fd(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return wr(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0; }

int close(int fd)
{
  if (!tracked_fd(fd)) { if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; } return syscall(SYS_close, fd); }
  struct rule *r = decide(K_CLOSE, fdpath[fd]);
  int k = syscall(SYS_close, fd), e = errno;
  char *p = fdpath[fd]; fdpath[fd] = NULL;
  int err = r && r->action == A_ERRNO ? (int)r->arg : k < 0 ? e : 0;
  note(K_CLOSE, fd, err ? -1 : 0, err, -1, p, NULL, 0, NULL);
  free(p);
  after(r);
  if (err) { errno = err; return -1; }
  return 0;
}
static void dupd(int a, int b)
{ if (armed && b >= 0 && b < MAXFD) { free(fdpath[b]); fdpath[b] = a >= 0 && a < MAXFD && fdpath[a] ? strdup(fdpath[a]) : NULL; } }
int dup(int a) { int b = syscall(SYS_dup, a); dupd(a, b); return b; }
int dup2(int a, int b) { int c = syscall(SYS_dup2, a, b); if (c >= 0 && a != b) dupd(a, c); return c; }
int dup3(int a, int b, int f) { int c = syscall(SYS_dup3, a, b, f); if (c >= 0) dupd(a, c); return c; }
static int do_fcntl(int fd, int cmd, void *arg)
{ int k = syscall(SYS_fcntl, fd, cmd, arg); if (k >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) dupd(fd, k); return k; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

static int on_fd(int kind, int fd, long nr, long arg)
{
  if (!tracked_fd(fd)) return syscall(nr, fd, arg);
  struct rule *r = decide(kind, fdpath[fd]);
  if (r && r->action == A_ERRNO) { note(kind, fd, -1, r->arg, arg, fdpath[fd], NULL, 0, NULL); errno = r->arg; return -1; }
  int k = syscall(nr, fd, arg), e = errno;
  note(kind, fd, k, k < 0 ? e : 0, arg, fdpath[fd], NULL, 0, NULL);
  after(r);
  errno = e;
  return k;
}
int fsync(int fd) { return on_fd(K_FSYNC, fd, SYS_fsync, 0); }
int fdatasync(int fd) { return on_fd(K_FSYNC, fd, SYS_fdatasync, 0); }
int ftruncate(int fd, off_t n) { return on_fd(K_TRUNC, fd, SYS_ftruncate, n); }
int ftruncate64(int fd, off64_t n) { return on_fd(K_TRUNC, fd, SYS_ftruncate, n); }

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl)
{
  char fa[PATH_MAX], fb[PATH_MAX];
  int t1 = tracked(d1, a, fa), t2 = tracked(d2, b, fb);
  if (!t1 && !t2) return syscall(SYS_renameat2, d1, a, d2, b, fl);
  struct rule *r = decide(K_RENAME, fa);
  if (r && r->action == A_ERRNO) { note(K_RENAME, -1, -1, r->arg, -1, fa, NULL, 0, fb); errno = r->arg; return -1; }
  int k = syscall(SYS_renameat2, d1, a, d2, b, fl), e = errno;
  note(K_RENAME, -1, k, k < 0 ? e : 0, -1, fa, NULL, 0, fb);
  after(r);
  errno = e;
  return k;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }

static int on_path(int kind, int d, const char *p, long nr, long a1, long a2)
{
  char full[PATH_MAX];
  if (!tracked(d, p, full)) return syscall(nr, d, p, a1, a2);
  struct rule *r = decide(kind, full);
  if (r && r->action == A_ERRNO) { note(kind, -1, -1, r->arg, a1, full, NULL, 0, NULL); errno = r->arg; return -1; }
  int k = syscall(nr, d, p, a1, a2), e = errno;
  note(kind, -1, k, k < 0 ? e : 0, a1, full, NULL, 0, NULL);
  after(r);
  errno = e;
  return k;
}
int unlink(const char *p) { return on_path(K_UNLINK, AT_FDCWD, p, SYS_unlinkat, 0, 0); }
int unlinkat(int d, const char *p, int f) { return on_path(K_UNLINK, d, p, SYS_unlinkat, f, 0); }
int rmdir(const char *p) { return on_path(K_UNLINK, AT_FDCWD, p, SYS_unlinkat, AT_REMOVEDIR, 0); }
int remove(const char *p)
{ int k = unlink(p); return k < 0 && (errno == EISDIR || errno == EPERM) ? rmdir(p) : k; }
int mkdir(const char *p, mode_t m) { return on_path(K_MKDIR, AT_FDCWD, p, SYS_mkdirat, m, 0); }
int mkdirat(int d, const char *p, mode_t m) { return on_path(K_MKDIR, d, p, SYS_mkdirat, m, 0); }
static int do_trunc(const char *p, long n)
{
  char full[PATH_MAX];
  if (!tracked(AT_FDCWD, p, full)) return syscall(SYS_truncate, p, n);
  struct rule *r = decide(K_TRUNC, full);
  if (r && r->action == A_ERRNO) { note(K_TRUNC, -1, -1, r->arg, n, full, NULL, 0, NULL); errno = r->arg; return -1; }
  int k = syscall(SYS_truncate, p, n), e = errno;
  note(K_TRUNC, -1, k, k < 0 ? e : 0, n, full, NULL, 0, NULL);
  after(r);
  errno = e;
  return k;
}
int truncate(const char *p, off_t n) { return do_trunc(p, n); }
int truncate64(const char *p, off64_t n) { return do_trunc(p, n); }

/* whole-file copies inside the kernel fall back to read and write */
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{ if (tracked_fd(o) || tracked_fd(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{ if (tracked_fd(o) || tracked_fd(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f)
{ if (tracked_fd(o) || tracked_fd(i)) { errno = EXDEV; return -1; } return syscall(SYS_copy_file_range, i, oi, o, oo, n, f); }

/* wall clock */
int clock_gettime(clockid_t c, struct timespec *t)
{ int k = syscall(SYS_clock_gettime, c, t); if (!k && clock_off && c == CLOCK_REALTIME) t->tv_sec += clock_off; return k; }
int gettimeofday(struct timeval *restrict t, void *restrict z)
{ int k = syscall(SYS_gettimeofday, t, z); if (!k && clock_off) t->tv_sec += clock_off; return k; }
time_t time(time_t *o)
{ struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
