/* File-system recorder and fault library (LD_PRELOAD).
   IOT_LOG=file       append one line per file-system operation: "<n> <op> <args...>"
   IOT_SKIP=prefix    operations on paths below this directory are neither recorded nor disturbed
   IOT_PLAN="n:kind"  at the operation number n: kill | torn (half of a write, then kill) | err:<errno> | torn-err:<errno>
                      (half of a write succeeds, the rest fails; every later write to the same file fails, too)
   IOT_DAMAGE="basename:occurrence:mode:arg"   when the file is opened for reading: missing | trunc (arg bytes left) | copy (arg: basename of another file)
                      | byte (arg: offset; the byte is complemented)
   IOT_EXE=name       only in processes whose executable has this name
   IOT_ROOT=dir       openings for reading are recorded below this directory only
   Directories /dev, /proc, /sys, /etc, /usr and the directory of the MPI session are always skipped. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>
#include <pthread.h>

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

static int logfd = -1, ready, counter, plan_n = -1, plan_err, plan_kind, dmg_occ, dmg_seen; /* plan_kind: 1 kill 2 torn 3 err 4 torn-err */
static char dmg_name[256], dmg_mode[32], dmg_arg[256], skip[PATH_MAX], root[PATH_MAX];
static int off;
static char *fdpath[4096];
static char fdw[4096], fdbad[4096];
static pthread_mutex_t mx = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static __thread int inside;

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *s;
  if ((s = getenv("IOT_EXE"))) { char e[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", e, sizeof e - 1); if (n > 0) { e[n] = 0; char *b = strrchr(e, '/'); if (strcmp(b ? b + 1 : e, s)) { off = 1; return; } } }
  if ((s = getenv("IOT_SKIP"))) strncpy(skip, s, sizeof skip - 1);
  if ((s = getenv("IOT_ROOT"))) strncpy(root, s, sizeof root - 1);
  if ((s = getenv("IOT_LOG"))) { logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND, 0644); if (logfd >= 0) { int h = fcntl(logfd, F_DUPFD_CLOEXEC, 900); if (h >= 0) { syscall(SYS_close, logfd); logfd = h; } } }
  if ((s = getenv("IOT_PLAN"))) {
    char k[32] = "";
    if (sscanf(s, "%d:%31s", &plan_n, k) == 2) {
      if (!strcmp(k, "kill")) plan_kind = 1;
      else if (!strcmp(k, "torn")) plan_kind = 2;
      else if (!strncmp(k, "err:", 4)) { plan_kind = 3; plan_err = atoi(k + 4); }
      else if (!strncmp(k, "torn-err:", 9)) { plan_kind = 4; plan_err = atoi(k + 9); }
    }
  }
  if ((s = getenv("IOT_DAMAGE"))) { dmg_occ = -1; sscanf(s, "%255[^:]:%d:%31[^:]:%255s", dmg_name, &dmg_occ, dmg_mode, dmg_arg); }
}

static int resolve(int dirfd, const char *p, char *out) {
  char base[PATH_MAX];
  if (!p) return 0;
  if (p[0] == '/') strncpy(base, p, PATH_MAX - 1), base[PATH_MAX - 1] = 0;
  else {
    char d[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) return 0; }
    else { char l[64]; sprintf(l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, d, sizeof d - 1); if (n < 0) return 0; d[n] = 0; }
    if (snprintf(base, PATH_MAX, "%s/%s", d, p) >= PATH_MAX) return 0;
  }
  /* lexical normalisation */
  char *o = out; *o = 0;
  char *save, *t;
  char tmp[PATH_MAX]; strcpy(tmp, base);
  for (t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { while (o > out && *--o != '/') ; *o = 0; continue; }
    o += sprintf(o, "/%s", t);
  }
  if (o == out) strcpy(out, "/");
  return 1;
}
static int under(const char *p, const char *d) { size_t n = strlen(d); return n && !strncmp(p, d, n) && (p[n] == '/' || !p[n]); }
static int interesting(const char *p) {
  init();
  if (off) return 0;
  if (logfd < 0 && plan_n < 0 && !dmg_name[0]) return 0;
  if (under(p, "/dev") || under(p, "/proc") || under(p, "/sys") || under(p, "/etc") || under(p, "/usr") || under(p, "/lib") || under(p, "/lib64")) return 0;
  if (skip[0] && (under(p, skip) || under(skip, p))) return 0;
  return 1;
}
static void say(const char *fmt, ...) {
  char b[3 * PATH_MAX];
  va_list ap; va_start(ap, fmt);
  int n = snprintf(b, sizeof b, "%d ", counter);
  n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap);
  va_end(ap);
  b[n++] = '\n';
  if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}
/* -> 0 go on; >0 errno to return; -1: torn write */
static int step(void) {
  counter++;
  if (counter != plan_n) return 0;
  switch (plan_kind) {
    case 1: say("KILL"); syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause();
    case 2: case 4: return -1;
    case 3: return plan_err;
  }
  return 0;
}
#define LOCK pthread_mutex_lock(&mx); int was = inside; inside = 1
#define UNLOCK inside = was; pthread_mutex_unlock(&mx)

static void damage(const char *path) {
  const char *b = strrchr(path, '/'); b = b ? b + 1 : path;
  if (!dmg_name[0] || strcmp(b, dmg_name)) return;
  if (++dmg_seen != dmg_occ) return;
  say("damage %s %s %s", path, dmg_mode, dmg_arg);
  if (!strcmp(dmg_mode, "missing")) syscall(SYS_unlink, path);
  else if (!strcmp(dmg_mode, "trunc")) syscall(SYS_truncate, path, atol(dmg_arg));
  else if (!strcmp(dmg_mode, "byte")) {
    int f = syscall(SYS_openat, AT_FDCWD, path, O_RDWR); unsigned char c;
    if (f >= 0) { if (syscall(SYS_pread64, f, &c, 1L, atol(dmg_arg)) == 1) { c = ~c; syscall(SYS_pwrite64, f, &c, 1L, atol(dmg_arg)); } syscall(SYS_close, f); }
  } else if (!strcmp(dmg_mode, "copy")) {
    char o[PATH_MAX]; strcpy(o, path); strcpy(strrchr(o, '/') + 1, dmg_arg);
    int f = syscall(SYS_openat, AT_FDCWD, o, O_RDONLY), g = syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_TRUNC);
    char buf[65536]; ssize_t n;
    if (f >= 0 && g >= 0) while ((n = syscall(SYS_read, f, buf, sizeof buf)) > 0) syscall(SYS_write, g, buf, n);
    if (f >= 0) syscall(SYS_close, f);
    if (g >= 0) syscall(SYS_close, g);
  }
}
static int wflags(const char *mode) { return strpbrk(mode, "wa+") != NULL; }

/* common bookkeeping of an opening; returns errno or 0 */
static int pre_open(const char *path, int w) {
  if (!w) { damage(path); }
  int e = step();
  if (e > 0) say("open%s! %s %d", w ? "w" : "r", path, e);
  return e > 0 ? e : 0;
}
static void post_open(const char *path, int w, int trunc, int fd) {
  say("open%s %s %d %d", w ? (trunc ? "w" : "a") : "r", path, fd, fd < 0 ? errno : 0);
  if (fd >= 0 && fd < 4096) { free(fdpath[fd]); fdpath[fd] = strdup(path); fdw[fd] = w; fdbad[fd] = 0; }
}
#define FOPEN(name) \
FILE *name(const char *p, const char *m) { \
  char q[PATH_MAX]; FILE *f; \
  if (inside || !resolve(AT_FDCWD, p, q) || !interesting(q)) return REAL(name)(p, m); \
  if (!wflags(m) && root[0] && !under(q, root)) return REAL(name)(p, m); \
  LOCK; int w = wflags(m), e = pre_open(q, w); \
  if (e) { UNLOCK; errno = e; return NULL; } \
  f = REAL(name)(p, m); int err = errno; post_open(q, w, m[0] == 'w', f ? fileno(f) : -1); UNLOCK; errno = err; return f; }
FOPEN(fopen)
FOPEN(fopen64)

#define OPENBODY(call, dfd) \
  mode_t mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, mode_t); va_end(ap); } \
  char q[PATH_MAX]; \
  if (inside || (fl & O_DIRECTORY) || !resolve(dfd, p, q) || !interesting(q)) return call; \
  if ((fl & O_ACCMODE) == O_RDONLY && root[0] && !under(q, root)) return call; \
  LOCK; int w = (fl & O_ACCMODE) != O_RDONLY, e = pre_open(q, w); \
  if (e) { UNLOCK; errno = e; return -1; } \
  int fd = call; int err = errno; post_open(q, w, (fl & O_TRUNC) != 0, fd); UNLOCK; errno = err; return fd;
int open(const char *p, int fl, ...) { OPENBODY(REAL(open)(p, fl, mode), AT_FDCWD) }
int open64(const char *p, int fl, ...) { OPENBODY(REAL(open64)(p, fl, mode), AT_FDCWD) }
int openat(int d, const char *p, int fl, ...) { OPENBODY(REAL(openat)(d, p, fl, mode), d) }
int openat64(int d, const char *p, int fl, ...) { OPENBODY(REAL(openat64)(d, p, fl, mode), d) }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int tracked(int fd) { return fd >= 0 && fd < 4096 && fdpath[fd] && fdw[fd]; }
static ssize_t do_write(int fd, const void *b, size_t n) {
  if (inside || !tracked(fd)) return syscall(SYS_write, fd, b, n);
  LOCK;
  int e = fdbad[fd] ? plan_err : step();
  if (e == -1) {
    size_t h = n / 2;
    if (h) syscall(SYS_write, fd, b, h);
    say("write %s %d %zu", fdpath[fd], fd, h);
    if (plan_kind == 2) { say("KILL"); syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
    fdbad[fd] = 1;
    UNLOCK;
    if (h) return h;
    errno = plan_err; return -1;
  }
  if (e > 0) { fdbad[fd] = 1; say("write! %s %d %d", fdpath[fd], fd, e); UNLOCK; errno = e; return -1; }
  ssize_t r = syscall(SYS_write, fd, b, n);
  int err = errno;
  if (r < 0) say("write! %s %d %d", fdpath[fd], fd, err); else say("write %s %d %zd", fdpath[fd], fd, r);
  UNLOCK;
  errno = err;
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (inside || !tracked(fd)) return syscall(SYS_writev, fd, v, c);
  size_t n = 0, o = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  char *b = malloc(n + 1);
  for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  ssize_t r = do_write(fd, b, n);
  int err = errno; free(b); errno = err;
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (!inside && tracked(fd)) { LOCK; int e = step(); say("pwrite %s %d %zu %ld", fdpath[fd], fd, n, (long)o); UNLOCK; if (e > 0) { errno = e; return -1; } }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  int fd = inside ? -1 : fileno(f);
  if (!tracked(fd)) return REAL(fwrite)(b, s, n, f);
  LOCK; int e = step();
  size_t r = e > 0 ? 0 : REAL(fwrite)(b, s, n, f);
  say(e > 0 ? "write! %s %d %zu" : "write %s %d %zu", fdpath[fd], fd, e > 0 ? (size_t)e : r * s);
  UNLOCK;
  if (e > 0) errno = e;
  return r;
}
static int forget(int fd) {
  int e = 0;
  if (fd >= 0 && fd < 4096 && fdpath[fd]) {
    e = step();
    say("close%s %s %d", fdw[fd] ? "w" : "r", fdpath[fd], fd);
    free(fdpath[fd]); fdpath[fd] = NULL;
  }
  return e;
}
int close(int fd) {
  if (inside || fd == logfd) return fd == logfd ? 0 : syscall(SYS_close, fd);
  LOCK; int e = forget(fd); UNLOCK;
  int r = syscall(SYS_close, fd);
  if (e > 0) { errno = e; return -1; }
  return r;
}
int fclose(FILE *f) {
  if (inside) return REAL(fclose)(f);
  int fd = fileno(f);
  if (!(fd >= 0 && fd < 4096 && fdpath[fd])) return REAL(fclose)(f);
  LOCK; int e = forget(fd); int r = REAL(fclose)(f); UNLOCK;
  if (e > 0) { errno = e; return EOF; }
  return r;
}
#define ONE(name, sig, dfd, p, callargs, label) \
int name sig { \
  char q[PATH_MAX]; \
  if (inside || !resolve(dfd, p, q) || !interesting(q)) return REAL(name) callargs; \
  LOCK; int e = step(); \
  if (e > 0) { say(label "! %s %d", q, e); UNLOCK; errno = e; return -1; } \
  int r = REAL(name) callargs; int err = errno; \
  say(label "%s %s %d", r ? "-" : "", q, r ? err : 0); UNLOCK; errno = err; return r; }
ONE(unlink, (const char *p), AT_FDCWD, p, (p), "unlink")
ONE(rmdir, (const char *p), AT_FDCWD, p, (p), "rmdir")
ONE(remove, (const char *p), AT_FDCWD, p, (p), "unlink")
ONE(unlinkat, (int d, const char *p, int fl), d, p, (d, p, fl), "unlink")
ONE(mkdir, (const char *p, mode_t m), AT_FDCWD, p, (p, m), "mkdir")
ONE(truncate, (const char *p, off_t n), AT_FDCWD, p, (p, n), "truncate")
ONE(truncate64, (const char *p, off64_t n), AT_FDCWD, p, (p, n), "truncate")
#define TWO(name, sig, d1, p1, d2, p2, callargs, label) \
int name sig { \
  char q[PATH_MAX], s[PATH_MAX]; \
  if (inside || !resolve(d1, p1, q) || !resolve(d2, p2, s) || !(interesting(q) || interesting(s))) return REAL(name) callargs; \
  LOCK; int e = step(); \
  if (e > 0) { say(label "! %s %s %d", q, s, e); UNLOCK; errno = e; return -1; } \
  int r = REAL(name) callargs; int err = errno; \
  say(label "%s %s %s %d", r ? "-" : "", q, s, r ? err : 0); UNLOCK; errno = err; return r; }
TWO(rename, (const char *a, const char *b), AT_FDCWD, a, AT_FDCWD, b, (a, b), "rename")
TWO(renameat, (int d, const char *a, int g, const char *b), d, a, g, b, (d, a, g, b), "rename")
TWO(renameat2, (int d, const char *a, int g, const char *b, unsigned fl), d, a, g, b, (d, a, g, b, fl), "rename")
TWO(link, (const char *a, const char *b), AT_FDCWD, a, AT_FDCWD, b, (a, b), "link")
TWO(symlink, (const char *a, const char *b), AT_FDCWD, b, AT_FDCWD, b, (a, b), "symlink")
char *mkdtemp(char *t) {
  char q[PATH_MAX];
  if (inside || !resolve(AT_FDCWD, t, q) || !interesting(q)) return REAL(mkdtemp)(t);
  LOCK; int e = step();
  if (e > 0) { say("mkdtemp! %s %d", q, e); UNLOCK; errno = e; return NULL; }
  char *r = REAL(mkdtemp)(t); int err = errno;
  if (r) { resolve(AT_FDCWD, r, q); say("mkdtemp %s", q); } else say("mkdtemp- %s %d", q, err);
  UNLOCK; errno = err; return r;
}
