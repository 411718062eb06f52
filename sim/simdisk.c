/* simdisk: the simulated disk, as an LD_PRELOAD shim over libc's file calls.
 *
 * 1. Redirection. A path below $SIMDISK_ROOT/ssqueezepy that is not code (*.py,
 *    *.pyc) and not a directory is replaced by the same path below
 *    $SIMDISK_OVERLAY: the package's data files live in the scratch overlay.
 * 2. Control. Between sd_control(req, rsp) and sd_off(), every operation on a
 *    redirected file is announced to a controller before it happens, and the
 *    controller decides what becomes of it: proceed, fail with an errno, be cut
 *    short, or kill this process before, during or after it.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static char root[PATH_MAX], over[PATH_MAX];
static size_t rootlen;
static int ready;
static unsigned char guarded[MAXFD];
static char fdname[MAXFD][96];
static int ctl_req = -1, ctl_rsp = -1, busy;

#define REAL(ret, name, ...) \
  static ret (*r_##name)(__VA_ARGS__); \
  if (!r_##name) r_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *r = getenv("SIMDISK_ROOT"), *o = getenv("SIMDISK_OVERLAY");
  if (!r || !o) return;
  snprintf(root, sizeof root, "%s/ssqueezepy", r);
  rootlen = strlen(root);
  snprintf(over, sizeof over, "%s/ssqueezepy", o);
}

/* lexical absolute path */
static int absolute(int dfd, const char *p, char *out) {
  char tmp[PATH_MAX * 2];
  if (!p || !*p) return 0;
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else {
    char base[PATH_MAX];
    if (dfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else {
      char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
      ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1);
      if (n < 0) return 0;
      base[n] = 0;
    }
    snprintf(tmp, sizeof tmp, "%s/%s", base, p);
  }
  char *w = out; char *save, *t; *w = 0;
  for (t = strtok_r(tmp, "/", &save); t; t = strtok_r(0, "/", &save)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { char *s = strrchr(out, '/'); if (s) { *s = 0; w = s; } continue; }
    size_t n = strlen(t);
    if (w - out + n + 2 > PATH_MAX) return 0;
    *w++ = '/'; memcpy(w, t, n); w += n; *w = 0;
  }
  return 1;
}
static int ends(const char *s, const char *e) {
  size_t a = strlen(s), b = strlen(e); return a >= b && !strcmp(s + a - b, e);
}
/* returns the path to use; *hit set if it's one of the simulated files */
static const char *map(int dfd, const char *p, char *buf, int *hit) {
  *hit = 0;
  init();
  if (!rootlen || !p) return p;
  int e = errno;
  char a[PATH_MAX];
  if (!absolute(dfd, p, a)) { errno = e; return p; }
  const char *rest = 0;
  if (!strncmp(a, root, rootlen) && a[rootlen] == '/') rest = a + rootlen;
  else if (!strncmp(a, over, strlen(over)) && a[strlen(over)] == '/') rest = a + strlen(over);
  if (!rest || ends(a, ".py") || ends(a, ".pyc") || ends(a, ".pyi") ||
      strstr(rest, "/__pycache__")) { errno = e; return p; }
  struct stat st;
  snprintf(buf, PATH_MAX, "%s%s", over, rest);
  if (syscall(SYS_newfstatat, AT_FDCWD, buf, &st, 0) == 0 && S_ISDIR(st.st_mode)) {
    errno = e; return p;
  }
  *hit = 1; errno = e;
  return buf;
}
static const char *leaf(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }

/* ---- controller ----------------------------------------------------------- */
struct verdict { int32_t what, arg; };
enum { GO = 0, ERR = 1, SHORT = 2, KILL_BEFORE = 3, KILL_AFTER = 4, KILL_PART = 5 };

static int rawread(int fd, void *b, size_t n) {
  size_t k = 0;
  while (k < n) { ssize_t r = syscall(SYS_read, fd, (char *)b + k, n - k); if (r <= 0) return -1; k += r; }
  return 0;
}
static char ignored[64];
static int asked;
/* a fault decided in advance: operations `op` on file `name`, from the k-th on */
static char pl_op[16], pl_name[64];
static int pl_on, pl_from, pl_to, pl_seen;
static struct verdict pl_v;
static struct verdict ask(const char *op, const char *name, const char *name2, long n) {
  struct verdict v = {GO, 0};
  if (pl_on && !strcmp(op, pl_op) && !strcmp(name, pl_name)) {
    int k = pl_seen++;
    if (k >= pl_from && k < pl_to) { asked = 0; return pl_v; }
  }
  if (ctl_req < 0 || busy) return v;
  asked = !(*ignored && !strcmp(name, ignored));
  if (!asked) return v;
  int e = errno; char b[512];
  busy = 1;
  int k = snprintf(b, sizeof b, "ask\t%s\t%s\t%s\t%ld\n", op, name, name2 ? name2 : "", n);
  syscall(SYS_write, ctl_req, b, k);
  if (rawread(ctl_rsp, &v, sizeof v)) _exit(97);
  busy = 0; errno = e;
  if (v.what == KILL_BEFORE) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
  return v;
}
static void tell(struct verdict v, const char *op, long ret) {
  if (ctl_req < 0 || busy || !asked) return;
  int e = errno; char b[128];
  if (v.what == KILL_AFTER || v.what == KILL_PART) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
  int k = snprintf(b, sizeof b, "done\t%s\t%ld\n", op, ret);
  syscall(SYS_write, ctl_req, b, k);
  errno = e;
}
void sd_plan(const char *op, const char *name, int from, int to, int what, int arg) {
  pl_on = 0;
  if (!op) return;
  snprintf(pl_op, sizeof pl_op, "%s", op); snprintf(pl_name, sizeof pl_name, "%s", name);
  pl_from = from; pl_to = to; pl_seen = 0; pl_v.what = what; pl_v.arg = arg; pl_on = 1;
}
int sd_seen(void) { return pl_seen; }
void sd_control(int req, int rsp) { init(); ctl_req = req; ctl_rsp = rsp; }
/* from now on, data files live below `o` */
void sd_overlay(const char *o) { init(); snprintf(over, sizeof over, "%s/ssqueezepy", o); }
/* operations on the file of this name proceed without being announced */
void sd_ignore(const char *n) { snprintf(ignored, sizeof ignored, "%s", n); }
void sd_off(void) { ctl_req = ctl_rsp = -1; }

static void mark(int fd, int hit, const char *p) {
  if (fd >= 0 && fd < MAXFD) {
    guarded[fd] = hit;
    if (hit) snprintf(fdname[fd], sizeof fdname[fd], "%s", leaf(p));
  }
}
static int isg(int fd) { return fd >= 0 && fd < MAXFD && guarded[fd]; }

/* ---- open ------------------------------------------------------------------ */
static int do_openat(int dfd, const char *p, int flags, mode_t mode) {
  char b[PATH_MAX]; int hit;
  const char *q = map(dfd, p, b, &hit);
  if (hit) {
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_TRUNC | O_CREAT));
    struct verdict v = ask(wr ? ((flags & O_TRUNC) ? "open-trunc" : "open-write") : "open-read", leaf(q), 0, 0);
    if (v.what == ERR) { tell(v, "open", -v.arg); errno = v.arg; return -1; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, q, flags, mode);
    int e = errno;
    mark(fd, 1, q); tell(v, "open", fd < 0 ? -e : 0); errno = e;
    return fd;
  }
  int fd = (int)syscall(SYS_openat, dfd, p, flags, mode);
  mark(fd, 0, p);
  return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_openat(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_openat(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_openat(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_openat(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_openat(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static FILE *do_fopen(const char *p, const char *mode, FILE *(*real)(const char *, const char *)) {
  char b[PATH_MAX]; int hit;
  const char *q = map(AT_FDCWD, p, b, &hit);
  if (hit) {
    struct verdict v = ask(mode[0] == 'r' ? "open-read" : mode[0] == 'w' ? "open-trunc" : "open-write", leaf(q), 0, 0);
    if (v.what == ERR) { tell(v, "open", -v.arg); errno = v.arg; return 0; }
    FILE *f = real(q, mode); int e = errno;
    if (f) mark(fileno(f), 1, q);
    tell(v, "open", f ? 0 : -e); errno = e;
    return f;
  }
  return real(p, mode);
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(p, m, r_fopen); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(p, m, r_fopen64); }

/* ---- read, write, close ------------------------------------------------------ */
ssize_t read(int fd, void *buf, size_t n) {
  if (!isg(fd)) return syscall(SYS_read, fd, buf, n);
  struct verdict v = ask("read", fdname[fd], 0, (long)n);
  if (v.what == ERR) { tell(v, "read", -v.arg); errno = v.arg; return -1; }
  if (v.what == SHORT && (size_t)v.arg < n && v.arg > 0) n = v.arg;
  ssize_t r = syscall(SYS_read, fd, buf, n); int e = errno;
  tell(v, "read", r); errno = e;
  return r;
}
static ssize_t do_write(int fd, const void *buf, size_t n, int pos, off_t off) {
  if (!isg(fd)) return pos ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
  struct verdict v = ask("write", fdname[fd], 0, (long)n);
  if (v.what == ERR) { tell(v, "write", -v.arg); errno = v.arg; return -1; }
  size_t k = n;
  if ((v.what == SHORT || v.what == KILL_PART) && (size_t)v.arg < n) k = v.arg;
  ssize_t r = k || !n ? (pos ? syscall(SYS_pwrite64, fd, buf, k, off) : syscall(SYS_write, fd, buf, k)) : 0;
  int e = errno;
  if (v.what == SHORT && !k && n) { r = -1; e = ENOSPC; }
  tell(v, "write", r); errno = e;
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!isg(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
int close(int fd) {
  if (!isg(fd)) return (int)syscall(SYS_close, fd);
  guarded[fd] = 0;
  struct verdict v = ask("close", fdname[fd], 0, 0);
  int r = (int)syscall(SYS_close, fd), e = errno;
  if (v.what == ERR) { r = -1; e = v.arg; }
  tell(v, "close", r); errno = e;
  return r;
}
static int dupmark(int o, int n) { if (n >= 0 && n < MAXFD && o >= 0 && o < MAXFD) { guarded[n] = guarded[o]; memcpy(fdname[n], fdname[o], sizeof fdname[n]); } return n; }
int dup(int o) { return dupmark(o, (int)syscall(SYS_dup, o)); }
int dup2(int o, int n) { return o == n ? n : dupmark(o, (int)syscall(SYS_dup3, o, n, 0)); }
int dup3(int o, int n, int f) { return dupmark(o, (int)syscall(SYS_dup3, o, n, f)); }

#define FDOP(name, opname, call) \
  if (!isg(fd)) return (int)(call); \
  struct verdict v = ask(opname, fdname[fd], 0, 0); \
  if (v.what == ERR) { tell(v, opname, -v.arg); errno = v.arg; return -1; } \
  int r = (int)(call), e = errno; tell(v, opname, r); errno = e; return r;
int fsync(int fd) { FDOP(fsync, "fsync", syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { FDOP(fdatasync, "fsync", syscall(SYS_fdatasync, fd)) }
int ftruncate(int fd, off_t n) { FDOP(ftruncate, "truncate", syscall(SYS_ftruncate, fd, n)) }
int ftruncate64(int fd, off_t n) { FDOP(ftruncate, "truncate", syscall(SYS_ftruncate, fd, n)) }

/* ---- names --------------------------------------------------------------------- */
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  char x[PATH_MAX], y[PATH_MAX]; int h1, h2;
  const char *p = map(d1, a, x, &h1), *q = map(d2, b, y, &h2);
  if (!h1 && !h2) return (int)syscall(SYS_renameat2, d1, a, d2, b, fl);
  struct verdict v = ask("rename", leaf(p), leaf(q), 0);
  if (v.what == ERR) { tell(v, "rename", -v.arg); errno = v.arg; return -1; }
  int r = (int)syscall(SYS_renameat2, h1 ? AT_FDCWD : d1, p, h2 ? AT_FDCWD : d2, q, fl), e = errno;
  tell(v, "rename", r < 0 ? -e : 0); errno = e;
  return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int c, const char *a, int d, const char *b) { return do_rename(c, a, d, b, 0); }
int renameat2(int c, const char *a, int d, const char *b, unsigned f) { return do_rename(c, a, d, b, f); }
static int do_unlink(int d, const char *a, int fl) {
  char x[PATH_MAX]; int h; const char *p = map(d, a, x, &h);
  if (!h) return (int)syscall(SYS_unlinkat, d, a, fl);
  struct verdict v = ask("unlink", leaf(p), 0, 0);
  if (v.what == ERR) { tell(v, "unlink", -v.arg); errno = v.arg; return -1; }
  int r = (int)syscall(SYS_unlinkat, AT_FDCWD, p, fl), e = errno;
  tell(v, "unlink", r < 0 ? -e : 0); errno = e;
  return r;
}
int unlink(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int f) { return do_unlink(d, a, f); }
int remove(const char *a) {
  char x[PATH_MAX]; int h; map(AT_FDCWD, a, x, &h);
  if (h) return do_unlink(AT_FDCWD, a, 0);
  REAL(int, remove, const char *); return r_remove(a);
}
static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
  char x[PATH_MAX], y[PATH_MAX]; int h1, h2;
  const char *p = map(d1, a, x, &h1), *q = map(d2, b, y, &h2);
  if (!h1 && !h2) return (int)syscall(SYS_linkat, d1, a, d2, b, fl);
  struct verdict v = ask("link", leaf(p), leaf(q), 0);
  if (v.what == ERR) { tell(v, "link", -v.arg); errno = v.arg; return -1; }
  int r = (int)syscall(SYS_linkat, h1 ? AT_FDCWD : d1, p, h2 ? AT_FDCWD : d2, q, fl), e = errno;
  tell(v, "link", r < 0 ? -e : 0); errno = e;
  return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int c, const char *a, int d, const char *b, int f) { return do_link(c, a, d, b, f); }
int truncate(const char *a, off_t n) {
  char x[PATH_MAX]; int h; const char *p = map(AT_FDCWD, a, x, &h);
  if (!h) return (int)syscall(SYS_truncate, a, n);
  struct verdict v = ask("truncate", leaf(p), 0, n);
  if (v.what == ERR) { tell(v, "truncate", -v.arg); errno = v.arg; return -1; }
  int r = (int)syscall(SYS_truncate, p, n), e = errno; tell(v, "truncate", r); errno = e; return r;
}
int chmod(const char *a, mode_t m) {
  char x[PATH_MAX]; int h; const char *p = map(AT_FDCWD, a, x, &h);
  return (int)syscall(SYS_fchmodat, AT_FDCWD, p, m);
}
int fchmodat(int d, const char *a, mode_t m, int fl) {
  char x[PATH_MAX]; int h; const char *p = map(d, a, x, &h); (void)fl;
  return (int)syscall(SYS_fchmodat, h ? AT_FDCWD : d, p, m);
}
int mkdir(const char *a, mode_t m) {
  char x[PATH_MAX]; int h; const char *p = map(AT_FDCWD, a, x, &h);
  return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
int symlink(const char *t, const char *a) {
  char x[PATH_MAX]; int h; const char *p = map(AT_FDCWD, a, x, &h);
  return (int)syscall(SYS_symlinkat, t, AT_FDCWD, p);
}

/* ---- stat ------------------------------------------------------------------------ */
static int do_stat(int d, const char *a, void *st, int fl) {
  char x[PATH_MAX]; int h; const char *p = a;
  if (a && *a) p = map(d, a, x, &h); else h = 0;
  return (int)syscall(SYS_newfstatat, h ? AT_FDCWD : d, p, st, fl);
}
int stat(const char *a, struct stat *s) { return do_stat(AT_FDCWD, a, s, 0); }
int stat64(const char *a, struct stat64 *s) { return do_stat(AT_FDCWD, a, s, 0); }
int lstat(const char *a, struct stat *s) { return do_stat(AT_FDCWD, a, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *a, struct stat64 *s) { return do_stat(AT_FDCWD, a, s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *a, struct stat *s, int f) { return do_stat(d, a, s, f); }
int fstatat64(int d, const char *a, struct stat64 *s, int f) { return do_stat(d, a, s, f); }
int statx(int d, const char *a, int fl, unsigned m, struct statx *s) {
  char x[PATH_MAX]; int h = 0; const char *p = (a && *a) ? map(d, a, x, &h) : a;
  return (int)syscall(SYS_statx, h ? AT_FDCWD : d, p, fl, m, s);
}
int access(const char *a, int m) {
  char x[PATH_MAX]; int h; const char *p = map(AT_FDCWD, a, x, &h);
  return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
}
int faccessat(int d, const char *a, int m, int fl) {
  char x[PATH_MAX]; int h; const char *p = map(d, a, x, &h); (void)fl;
  return (int)syscall(SYS_faccessat, h ? AT_FDCWD : d, p, m);
}
int utimensat(int d, const char *a, const struct timespec t[2], int fl) {
  char x[PATH_MAX]; int h = 0; const char *p = a ? map(d, a, x, &h) : a;
  return (int)syscall(SYS_utimensat, h ? AT_FDCWD : d, p, t, fl);
}
