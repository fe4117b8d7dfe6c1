/* simio.so: the simulator's seam to the operating system (LD_PRELOAD).
 *
 * Interposes every libc entry point through which the process can touch
 * files under one armed root directory, plus the wall/monotonic clock, and
 * provides a numpy data allocator (PyDataMem_Handler layout) that poisons
 * fresh memory and can fail the n-th allocation.
 *
 * Disarmed (default) everything is passed straight to libc.
 * Armed, each operation on a path below the root gets a sequence number, is
 * logged, calls an optional scheduler callback, and may be given a fault from
 * an explicit plan.  Nothing here draws random numbers: the plan, the
 * directory-order seed and the clock are set by the simulator.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 65536
#define MAXLOG 60000
#define MAXPLAN 256

enum { K_OPENR, K_OPENW, K_READ, K_WRITE, K_CLOSE, K_UNLINK, K_RENAME, K_MKDIR,
       K_RMDIR, K_TRUNC, K_FSYNC, K_OPENDIR, K_MMAP, K_LINK, K_N };
static const char *KN[] = { "openr", "openw", "read", "write", "close", "unlink",
  "rename", "mkdir", "rmdir", "trunc", "fsync", "opendir", "mmap", "link" };

enum { A_NONE, A_ERR, A_SHORT, A_EINTR, A_CRASH, A_CRASH_PART, A_ERR_AFTER };

struct plan { int kindmask; long nth; int action; long arg; int err; int fired; };
struct logent { int kind; int action; long a; long ret; int err; int flags; char path[88]; };

static int armed, frozen, nplan, nlog, dir_shuffle, clock_on;
static __thread int in_cb;
static long op_total, kind_total[K_N], space_left = -1, op_budget = 0, written;
static int budget_hit, enospc_fired;
static uint64_t dir_seed;
static int64_t clk_real, clk_mono, clk_step; static long clk_reads;
static char root[PATH_MAX]; static size_t rootlen;
static char curdir[PATH_MAX];
static struct plan plans[MAXPLAN];
static struct logent *logbuf;
static int (*callback)(int kind);
static unsigned char fdt[MAXFD];          /* 0 untracked, 1 tracked, 2 dup */
static char *fdpath[MAXFD];
static __thread int in_fclose;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static const char *abspath(const char *p, char *buf) {
  char tmp[PATH_MAX * 2];
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else { if (!getcwd(curdir, sizeof curdir)) return NULL; snprintf(tmp, sizeof tmp, "%s/%s", curdir, p); }
  /* lexical normalisation */
  char *out = buf; *out = 0; char *s = tmp; char *save; 
  for (char *t = strtok_r(s, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { char *q = strrchr(buf, '/'); if (q) { *q = 0; out = q; } continue; }
    size_t l = strlen(t); if ((size_t)(out - buf) + l + 2 > PATH_MAX) return NULL;
    *out++ = '/'; memcpy(out, t, l + 1); out += l;
  }
  if (!*buf) strcpy(buf, "/");
  return buf;
}
static int tracked_path(const char *p, char *buf) {
  if (!armed || !p || in_cb) return 0;
  int e = errno; int r = 0;
  if (p[0] == '/' && strncmp(p, root, rootlen) && !strstr(p, "/.")) { return 0; }
  if (abspath(p, buf) && !strncmp(buf, root, rootlen) && (buf[rootlen] == '/' || !buf[rootlen])) r = 1;
  errno = e; return r;
}
static int tracked_fd(int fd) { return armed && !in_cb && fd >= 0 && fd < MAXFD && fdt[fd]; }
static void setfd(int fd, int t, const char *p) {
  if (fd < 0 || fd >= MAXFD) return;
  free(fdpath[fd]); fdpath[fd] = (t && p) ? strdup(p) : NULL; fdt[fd] = t;
}
static struct logent *addlog(int kind, const char *path, long a) {
  if (!logbuf) logbuf = calloc(MAXLOG, sizeof *logbuf);
  struct logent *l = &logbuf[nlog < MAXLOG ? nlog : MAXLOG - 1];
  if (nlog < MAXLOG) nlog++;
  memset(l, 0, sizeof *l); l->kind = kind; l->a = a; l->flags = in_fclose;
  const char *rel = path ? path : "";
  if (!strncmp(rel, root, rootlen)) rel += rootlen;
  size_t n = strlen(rel); if (n >= sizeof l->path) rel += n - sizeof l->path + 1;
  strcpy(l->path, rel);
  return l;
}
/* Common prologue.  Returns the plan entry to apply, or NULL. */
static struct plan *enter(int kind, const char *path, long a, struct logent **lp) {
  if (callback && !in_cb) { int e = errno; in_cb = 1; callback(kind); in_cb = 0; errno = e; }
  op_total++; kind_total[kind]++;
  struct logent *l = addlog(kind, path, a); *lp = l;
  if (op_budget && op_total > op_budget) { budget_hit = 1; }
  if (frozen) return NULL;
  for (int i = 0; i < nplan; i++) {
    struct plan *p = &plans[i];
    if (p->fired || !(p->kindmask & (1 << kind))) continue;
    long cnt = 0; for (int k = 0; k < K_N; k++) if (p->kindmask & (1 << k)) cnt += kind_total[k];
    if (cnt == p->nth) { p->fired = 1; l->action = p->action; return p; }
  }
  return NULL;
}
static int mutating(int k) { return k==K_OPENW||k==K_WRITE||k==K_UNLINK||k==K_RENAME||k==K_MKDIR||k==K_RMDIR||k==K_TRUNC||k==K_LINK; }
/* 1: operation must not be performed, errno set */
static int blocked(int kind, struct plan *p, struct logent *l) {
  if (frozen || budget_hit) { if (kind == K_CLOSE) return 0; l->err = errno = EIO; l->ret = -1; return 1; }
  if (!p) return 0;
  switch (p->action) {
    case A_ERR: errno = l->err = p->err; l->ret = -1; return kind == K_CLOSE ? 0 : 1;
    case A_EINTR: if (kind == K_CLOSE) return 0; errno = l->err = EINTR; l->ret = -1; return 1;
    case A_CRASH: frozen = 1; if (kind == K_CLOSE) return 0; errno = l->err = EIO; l->ret = -1; return 1;
  }
  return 0;
}
static void after(int kind, struct plan *p, struct logent *l, long *ret) {
  l->ret = *ret; if (*ret < 0) l->err = errno;
  if (!p) return;
  if (p->action == A_CRASH_PART) { frozen = 1; }
  if (p->action == A_ERR_AFTER || (kind == K_CLOSE && p->action == A_ERR)) { *ret = -1; errno = l->err = p->err; l->ret = -1; }
  (void)mutating;
}

/* ------------------------------------------------ open family */
static long do_open(int dirfd, const char *path, int flags, mode_t mode) {
  REAL(int, openat, int, const char *, int, ...);
  char buf[PATH_MAX];
  int t = (dirfd == AT_FDCWD || (path && path[0] == '/')) && !(flags & O_DIRECTORY) && !(flags & O_PATH) && tracked_path(path, buf);
  if (!t) { int fd = real_openat(dirfd, path, flags, mode); if (fd >= 0 && armed) setfd(fd, 0, NULL); else if (fd >= 0 && fd < MAXFD && fdt[fd]) setfd(fd, 0, NULL); return fd; }
  int kind = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? K_OPENW : K_OPENR;
  struct logent *l; struct plan *p = enter(kind, buf, flags & (O_TRUNC | O_CREAT | O_EXCL | O_APPEND), &l);
  if (blocked(kind, p, l)) return -1;
  if (kind == K_OPENW && space_left == 0 && (flags & O_CREAT) && access(buf, F_OK) != 0) { enospc_fired++; l->err = errno = ENOSPC; l->ret = -1; return -1; }
  long fd = real_openat(dirfd, path, flags, mode);
  if (fd >= 0) setfd(fd, 1, buf);
  l->ret = fd >= 0 ? 0 : -1; if (fd < 0) l->err = errno;
  if (p && p->action == A_CRASH_PART) frozen = 1;
  if (p && p->action == A_ERR_AFTER && fd >= 0) { REAL(int, close, int); real_close(fd); setfd(fd, 0, NULL); l->ret = -1; errno = l->err = p->err; return -1; }
  if (fd >= 0) errno = 0;
  return fd;
}
#define OPENMODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

/* ------------------------------------------------ read / write */
static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int usep) {
  REAL(ssize_t, write, int, const void *, size_t);
  REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
#define RAWW(nn) (usep ? real_pwrite64(fd, b, nn, off) : real_write(fd, b, nn))
  if (!tracked_fd(fd)) return RAWW(n);
  struct logent *l; struct plan *p = enter(K_WRITE, fdpath[fd], (long)n, &l);
  if (blocked(K_WRITE, p, l)) return -1;
  size_t m = n;
  if (p && (p->action == A_SHORT || p->action == A_CRASH_PART || p->action == A_ERR_AFTER)) {
    /* arg: per-mille of the request that reaches the file */
    m = (size_t)((double)n * p->arg / 1000.0);
    if (p->action == A_SHORT && m < 1) m = 1;
    if (m > n) m = n;
  }
  if (space_left >= 0 && (long)m > space_left) {
    m = space_left;
    if (m == 0 && n > 0) { enospc_fired++; l->err = errno = ENOSPC; l->ret = -1; return -1; }
  }
  long r = m ? RAWW(m) : 0;
  if (r > 0) { written += r; if (space_left >= 0) space_left -= r; }
  l->ret = r; if (r < 0) l->err = errno;
  if (p && p->action == A_CRASH_PART) { frozen = 1; errno = l->err = EIO; return -1; }
  if (p && p->action == A_ERR_AFTER) { errno = l->err = p->err; l->ret = -1; return -1; }
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!tracked_fd(fd)) return real_writev(fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return tot ? tot : -1; tot += r; if ((size_t)r < v[i].iov_len) break; }
  return tot;
}
static ssize_t do_read(int fd, void *b, size_t n, off_t off, int usep) {
  REAL(ssize_t, read, int, void *, size_t);
  REAL(ssize_t, pread64, int, void *, size_t, off_t);
#define RAWR(nn) (usep ? real_pread64(fd, b, nn, off) : real_read(fd, b, nn))
  if (!tracked_fd(fd)) return RAWR(n);
  struct logent *l; struct plan *p = enter(K_READ, fdpath[fd], (long)n, &l);
  if (blocked(K_READ, p, l)) return -1;
  size_t m = n;
  if (p && p->action == A_SHORT) { m = (size_t)((double)n * p->arg / 1000.0); if (m < 1) m = 1; if (m > n) m = n; }
  long r = RAWR(m); after(K_READ, p, l, &r); return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return do_read(fd, b, n, 0, 0); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, readv, int, const struct iovec *, int);
  if (!tracked_fd(fd)) return real_readv(fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) { ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return tot ? tot : -1; tot += r; if ((size_t)r < v[i].iov_len) break; }
  return tot;
}
/* kernel-side copies would bypass the seam: callers fall back to read/write */
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); if (tracked_fd(o) || tracked_fd(i)) { errno = EINVAL; return -1; } return real_sendfile64(o, i, off, n); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); if (tracked_fd(o) || tracked_fd(i)) { errno = EXDEV; return -1; } return real_copy_file_range(i, io, o, oo, n, f); }

int close(int fd) {
  REAL(int, close, int);
  if (!tracked_fd(fd)) { if (fd >= 0 && fd < MAXFD && fdt[fd]) setfd(fd, 0, NULL); return real_close(fd); }
  struct logent *l; struct plan *p = enter(K_CLOSE, fdpath[fd], 0, &l);
  blocked(K_CLOSE, p, l);
  long r = real_close(fd); setfd(fd, 0, NULL);
  after(K_CLOSE, p, l, &r); return r;
}
int fsync(int fd) { REAL(int, fsync, int); if (!tracked_fd(fd)) return real_fsync(fd);
  struct logent *l; struct plan *p = enter(K_FSYNC, fdpath[fd], 0, &l); if (blocked(K_FSYNC, p, l)) return -1; long r = 0; after(K_FSYNC, p, l, &r); return r; }
int fdatasync(int fd) { REAL(int, fdatasync, int); if (!tracked_fd(fd)) return real_fdatasync(fd); return fsync(fd); }
static int do_ftruncate(int fd, off_t n) { REAL(int, ftruncate64, int, off_t); if (!tracked_fd(fd)) return real_ftruncate64(fd, n);
  struct logent *l; struct plan *p = enter(K_TRUNC, fdpath[fd], n, &l); if (blocked(K_TRUNC, p, l)) return -1; long r = real_ftruncate64(fd, n); after(K_TRUNC, p, l, &r); return r; }
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }

/* dup family */
int dup(int fd) { REAL(int, dup, int); int r = real_dup(fd); if (r >= 0 && r < MAXFD) { if (tracked_fd(fd)) setfd(r, 2, fdpath[fd]); else if (fdt[r]) setfd(r, 0, NULL); } return r; }
int dup2(int a, int b) { REAL(int, dup2, int, int); int r = real_dup2(a, b); if (r >= 0 && r < MAXFD && a != b) { if (tracked_fd(a)) setfd(r, 2, fdpath[a]); else if (fdt[r]) setfd(r, 0, NULL); } return r; }
static int do_fcntl(int (*rf)(int, int, ...), int fd, int cmd, void *arg) {
  int r = rf(fd, cmd, arg);
  if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD) { if (tracked_fd(fd)) setfd(r, 2, fdpath[fd]); else if (fdt[r]) setfd(r, 0, NULL); }
  return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); REAL(int, fcntl, int, int, ...); return do_fcntl(real_fcntl, fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); REAL(int, fcntl64, int, int, ...); return do_fcntl(real_fcntl64, fd, cmd, a); }

/* ------------------------------------------------ stdio (numpy tofile/fromfile) */
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  /* stdio retries partial writes itself; report 0 on error as fopencookie wants */
  size_t done = 0;
  while (done < n) { ssize_t r = write((int)(intptr_t)c, b + done, n - done); if (r < 0) return done; if (r == 0) return done; done += r; }
  return done;
}
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = lseek64((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return close((int)(intptr_t)c); }
static FILE *mkcookie(int fd, const char *mode) {
  cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
  return fopencookie((void *)(intptr_t)fd, mode, f);
}
FILE *fdopen(int fd, const char *mode) { REAL(FILE *, fdopen, int, const char *); if (!tracked_fd(fd)) return real_fdopen(fd, mode); return mkcookie(fd, mode); }
static FILE *do_fopen(const char *path, const char *mode, FILE *(*rf)(const char *, const char *)) {
  char buf[PATH_MAX];
  if (!tracked_path(path, buf)) return rf(path, mode);
  int plus = strchr(mode, '+') != NULL, fl = 0;
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int fd = do_open(AT_FDCWD, path, fl, 0666); if (fd < 0) return NULL;
  return mkcookie(fd, mode);
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(p, m, real_fopen); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(p, m, real_fopen64); }
int fclose(FILE *f) { REAL(int, fclose, FILE *); in_fclose++; int r = real_fclose(f); in_fclose--; return r; }

/* ------------------------------------------------ namespace operations */
#define NSOP1(kind_, path_, call_) do { char buf_[PATH_MAX]; if (!tracked_path(path_, buf_)) return call_; \
  struct logent *l_; struct plan *pl_ = enter(kind_, buf_, 0, &l_); if (blocked(kind_, pl_, l_)) return -1; \
  long r_ = call_; after(kind_, pl_, l_, &r_); return r_; } while (0)
int unlink(const char *p) { REAL(int, unlink, const char *); NSOP1(K_UNLINK, p, real_unlink(p)); }
int remove(const char *p) { REAL(int, remove, const char *); NSOP1(K_UNLINK, p, real_remove(p)); }
int rmdir(const char *p) { REAL(int, rmdir, const char *); NSOP1(K_RMDIR, p, real_rmdir(p)); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); if (d != AT_FDCWD && p[0] != '/') return real_unlinkat(d, p, f); NSOP1((f & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK, p, real_unlinkat(d, p, f)); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); NSOP1(K_MKDIR, p, real_mkdir(p, m)); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); if (d != AT_FDCWD && p[0] != '/') return real_mkdirat(d, p, m); NSOP1(K_MKDIR, p, real_mkdirat(d, p, m)); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); char t[PATH_MAX]; if (!tracked_path(a, t)) { NSOP1(K_RENAME, b, real_rename(a, b)); } NSOP1(K_RENAME, a, real_rename(a, b)); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if (d != AT_FDCWD || e != AT_FDCWD) return real_renameat(d, a, e, b); return rename(a, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); if (d != AT_FDCWD || e != AT_FDCWD || f) return real_renameat2(d, a, e, b, f); return rename(a, b); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); NSOP1(K_LINK, b, real_link(a, b)); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); NSOP1(K_LINK, b, real_symlink(a, b)); }
static int do_truncate(const char *p, off_t n) { REAL(int, truncate64, const char *, off_t); NSOP1(K_TRUNC, p, real_truncate64(p, n)); }
int truncate(const char *p, off_t n) { return do_truncate(p, n); }
int truncate64(const char *p, off_t n) { return do_truncate(p, n); }
static void *do_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  REAL(void *, mmap64, void *, size_t, int, int, int, off_t);
  if (fd < 0 || !tracked_fd(fd)) return real_mmap64(a, n, pr, fl, fd, o);
  struct logent *l; struct plan *p = enter(K_MMAP, fdpath[fd], (long)n, &l);
  if (blocked(K_MMAP, p, l)) return MAP_FAILED;
  void *r = real_mmap64(a, n, pr, fl, fd, o); l->ret = r == MAP_FAILED ? -1 : 0; return r;
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (fd < 0 || !armed) return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o); return do_mmap(a, n, pr, fl, fd, o); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap(a, n, pr, fl, fd, o); }

/* ------------------------------------------------ directory enumeration order */
struct simdir { DIR *d; struct dirent64 *ents; int n, i; struct simdir *next; };
static struct simdir *simdirs;
static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static int cmpent(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
DIR *opendir(const char *path) {
  REAL(DIR *, opendir, const char *); REAL(struct dirent64 *, readdir64, DIR *);
  char buf[PATH_MAX];
  if (!tracked_path(path, buf)) return real_opendir(path);
  struct logent *l; struct plan *p = enter(K_OPENDIR, buf, 0, &l);
  if (blocked(K_OPENDIR, p, l)) return NULL;
  DIR *d = real_opendir(path); if (!d) { l->ret = -1; l->err = errno; return NULL; }
  if (dir_shuffle) {
    struct simdir *s = calloc(1, sizeof *s); s->d = d; int cap = 0; struct dirent64 *e;
    while ((e = real_readdir64(d))) { if (s->n == cap) { cap = cap ? cap * 2 : 32; s->ents = realloc(s->ents, cap * sizeof *s->ents); } s->ents[s->n++] = *e; }
    qsort(s->ents, s->n, sizeof *s->ents, cmpent);
    uint64_t h = dir_seed;
    for (int i = s->n - 1; i > 0; i--) { h = mix(h); int j = h % (i + 1); struct dirent64 t = s->ents[i]; s->ents[i] = s->ents[j]; s->ents[j] = t; }
    s->next = simdirs; simdirs = s;
  }
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  REAL(struct dirent64 *, readdir64, DIR *);
  for (struct simdir *s = simdirs; s; s = s->next) if (s->d == d) return s->i < s->n ? &s->ents[s->i++] : NULL;
  return real_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  REAL(int, closedir, DIR *);
  for (struct simdir **s = &simdirs; *s; s = &(*s)->next) if ((*s)->d == d) { struct simdir *t = *s; *s = t->next; free(t->ents); free(t); break; }
  return real_closedir(d);
}

/* ------------------------------------------------ clock */
int clock_gettime(clockid_t c, struct timespec *t) {
  if (clock_on && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE)) {
    clk_reads++; clk_real += clk_step; clk_mono += clk_step > 0 ? clk_step : 1000;
    int64_t v = c == CLOCK_MONOTONIC ? clk_mono : clk_real;
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
  }
  REAL(int, clock_gettime, clockid_t, struct timespec *); return real_clock_gettime(c, t);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  if (clock_on) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
  REAL(int, gettimeofday, struct timeval *, void *); return real_gettimeofday(tv, tz);
}
time_t time(time_t *o) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec;
}

/* ------------------------------------------------ control API (ctypes) */
void sim_arm(const char *r) {
  snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
  armed = 1; frozen = 0; nplan = 0; nlog = 0; op_total = 0; memset(kind_total, 0, sizeof kind_total);
  space_left = -1; budget_hit = 0; enospc_fired = 0; dir_shuffle = 0; callback = NULL; op_budget = 0; written = 0; in_cb = 0;
}
void sim_disarm(void) { armed = 0; frozen = 0; nplan = 0; callback = NULL; dir_shuffle = 0; space_left = -1; budget_hit = 0;
  for (int i = 0; i < 4096; i++) if (fdt[i]) setfd(i, 0, NULL); }
int sim_plan(int mask, long nth, int action, long arg, int err) { if (nplan >= MAXPLAN) return -1; plans[nplan] = (struct plan){ mask, nth, action, arg, err, 0 }; return nplan++; }
void sim_pause(int p) { armed = !p; }
int sim_armed(void) { return armed; }
int sim_plan_fired(int i) { return plans[i].fired; }
void sim_clear_plan(void) { nplan = 0; }
void sim_thaw(void) { frozen = 0; budget_hit = 0; }
int sim_frozen(void) { return frozen; }
void sim_freeze(void) { frozen = 1; }
int sim_budget_hit(void) { return budget_hit; }
void sim_budget(long n) { op_budget = n; }
void sim_space(long n) { space_left = n; }
int sim_enospc(void) { return enospc_fired; }
long sim_written(void) { return written; }
long sim_ops(void) { return op_total; }
long sim_kind(int k) { return kind_total[k]; }
void sim_dirorder(int on, uint64_t seed) { dir_shuffle = on; dir_seed = seed; }
void sim_callback(int (*cb)(int)) { callback = cb; }
void sim_clock(int on, int64_t start, int64_t step) { clock_on = on; clk_real = start; clk_mono = 1000000000LL * 1000; clk_step = step; clk_reads = 0; }
void sim_clock_jump(int64_t d) { clk_real += d; }
int64_t sim_clock_now(void) { return clk_real; }
long sim_clock_reads(void) { return clk_reads; }
int sim_nlog(void) { return nlog; }
int sim_log(int i, char *out, int n) {
  struct logent *l = &logbuf[i];
  return snprintf(out, n, "%s %s a=%ld r=%ld e=%d f=%d fc=%d", KN[l->kind], l->path, l->a, l->ret, l->err, l->action, l->flags);
}
/* a fault that hit a write issued from inside fclose() (its error is invisible to numpy.tofile) */
int sim_fclose_write_fault(void) { for (int i = 0; i < nlog; i++) if (logbuf[i].kind == K_WRITE && logbuf[i].flags && logbuf[i].err && logbuf[i].err != EINTR) return 1; return 0; }

/* ------------------------------------------------ numpy data allocator */
static int al_on; static long al_count, al_fail = -1, al_fail2 = -1, al_failed, al_min; static double al_pat; static int al_poison;
void sim_alloc(int on, int poison, double pattern, long fail_at, long fail_at2, long minsize) { al_on = on; al_poison = poison; al_pat = pattern; al_fail = fail_at; al_fail2 = fail_at2; al_count = 0; al_failed = 0; al_min = minsize; }
long sim_alloc_count(void) { return al_count; }
long sim_alloc_failed(void) { return al_failed; }
static void poison(char *p, size_t n) { size_t i = 0; for (; i + 8 <= n; i += 8) memcpy(p + i, &al_pat, 8); if (i < n) memcpy(p + i, &al_pat, n - i); }
static int al_deny(size_t n) { if (!al_on || (long)n < al_min) return 0; long c = al_count++; if (c == al_fail || c == al_fail2) { al_failed++; return 1; } return 0; }
static long al_live; /* blocks handed out and not given back */
long sim_alloc_live(void) { return al_live; }
static void *np_malloc(void *c, size_t n) { (void)c; if (al_deny(n)) return NULL; char *p = malloc(n ? n : 1); if (p && al_poison) poison(p, n); if (p) __atomic_add_fetch(&al_live, 1, __ATOMIC_RELAXED); return p; }
static void *np_calloc(void *c, size_t a, size_t b) { (void)c; if (al_deny(a * b)) return NULL; void *p = calloc(a ? a : 1, b ? b : 1); if (p) __atomic_add_fetch(&al_live, 1, __ATOMIC_RELAXED); return p; }
static void *np_realloc(void *c, void *p, size_t n) { (void)c; if (al_deny(n)) return NULL; return realloc(p, n ? n : 1); }
static void np_free(void *c, void *p, size_t n) { (void)c; if (p && al_poison) poison(p, n); if (p) __atomic_sub_fetch(&al_live, 1, __ATOMIC_RELAXED); free(p); }
struct np_handler { char name[127]; uint8_t version; struct { void *ctx; void *(*m)(void *, size_t); void *(*c)(void *, size_t, size_t); void *(*r)(void *, void *, size_t); void (*f)(void *, void *, size_t); } a; };
static struct np_handler handler = { "micropolarray_sim", 1, { NULL, np_malloc, np_calloc, np_realloc, np_free } };
void *sim_handler(void) { return &handler; }
