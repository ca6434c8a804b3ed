/* LD_PRELOAD storage layer of the simulator.
 *
 * Every libc entry point through which CPython, numpy, HDF5, libgfortran and libc stdio reach a file is wrapped.
 * Calls on paths below the run's scratch root (set by sim_root) are counted, logged and may be made to fail by the
 * rules that the scheduler armed; every other call goes straight through.  Nothing here draws random numbers or reads
 * clocks: which call fails, and how, is data given by the Python side.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>

enum { C_OPEN = 1, C_READ = 2, C_WRITE = 4, C_CLOSE = 8, C_META = 16, C_SYNC = 32, C_ALLOC = 64 };
enum { A_ERR = 1, A_SHORT = 2, A_EOF = 3, A_CRASH_BEFORE = 4, A_CRASH_AFTER = 5, A_TORN_CRASH = 6, A_TORN_ERR = 7, A_SIGINT = 8 };

#define NFD 4096
#define NRULE 64
#define NLOG 65536
static char g_root[PATH_MAX]; static size_t g_rootlen;
static int g_on;
static unsigned char trk[NFD];          /* fd is below root */
static unsigned char trkw[NFD];         /* .. and open for writing */
static char *fdpath[NFD];
typedef struct { int cls; char sub[128]; long nth; int act; long err; double frac; int sticky; long seen; long fired; int live; } rule_t;
static rule_t rules[NRULE]; static int nrules;
static long counts[8], fired_total, mutated;
typedef struct { char op[10]; long size; long res; int fault; char path[96]; } log_t;
/* shared with children, so that what a crashed one did can be looked up */
static struct { int n; log_t e[NLOG]; } *glog; static int log_on;
#define nlog (glog ? glog->n : 0)

/* allocation failures: only for numpy's array allocator */
static unsigned long np_lo, np_hi; static size_t alloc_min = 4096; static int alloc_on;

static int classidx(int c){ switch(c){case C_OPEN:return 0;case C_READ:return 1;case C_WRITE:return 2;case C_CLOSE:return 3;case C_META:return 4;case C_SYNC:return 5;case C_ALLOC:return 6;} return 7; }

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
  static inline void init_##name(void){ if(!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }

static int under(const char *p, char *out) {
  if (!g_rootlen || !p) return 0;
  char tmp[PATH_MAX];
  if (p[0] != '/') { if (!getcwd(tmp, sizeof tmp)) return 0; size_t l = strlen(tmp); snprintf(tmp + l, sizeof tmp - l, "/%s", p); p = tmp; }
  /* squeeze ./ and // and resolve .. textually */
  char norm[PATH_MAX]; size_t n = 0; const char *s = p;
  while (*s) {
    while (*s == '/') s++;
    const char *e = s; while (*e && *e != '/') e++;
    size_t l = e - s;
    if (l == 0) break;
    if (l == 1 && s[0] == '.') {}
    else if (l == 2 && s[0] == '.' && s[1] == '.') { while (n > 0 && norm[n-1] != '/') n--; if (n > 0) n--; }
    else { if (n + l + 2 >= sizeof norm) return 0; norm[n++] = '/'; memcpy(norm + n, s, l); n += l; }
    s = e;
  }
  norm[n] = 0;
  if (strncmp(norm, g_root, g_rootlen) == 0 && (norm[g_rootlen] == '/' || norm[g_rootlen] == 0)) {
    if (out) { strcpy(out, norm + g_rootlen); }
    return 1;
  }
  return 0;
}

static void addlog(const char *op, const char *path, long size, long res, int fault) {
  if (!log_on) return;
  if (!glog) return;
  if (nlog >= NLOG) return;
  log_t *l = &glog->e[glog->n++];
  snprintf(l->op, sizeof l->op, "%s", op); l->size = size; l->res = res; l->fault = fault;
  snprintf(l->path, sizeof l->path, "%s", path ? path : "?");
}

/* returns the rule that fires for this call, or NULL */
static rule_t *match(int cls, const char *path) {
  counts[classidx(cls)]++;
  for (int i = 0; i < nrules; i++) {
    rule_t *r = &rules[i];
    if (!r->live || !(r->cls & cls)) continue;
    if (r->sub[0] && (!path || !strstr(path, r->sub))) continue;
    long k = r->seen++;
    if (k == r->nth || (r->sticky && k > r->nth)) { r->fired++; fired_total++; if (!r->sticky) r->live = 0; if (r->act == A_SIGINT) { raise(SIGINT); return NULL; } return r; }
  }
  return NULL;
}

/* ---- control interface (ctypes) ---- */
void sim_root(const char *root){ if (root && root[0]) { char b[PATH_MAX]; if (realpath(root, b)) strcpy(g_root, b); else strcpy(g_root, root); g_rootlen = strlen(g_root); g_on = 1; } else { g_rootlen = 0; g_on = 0; } }
void sim_reset(void){ nrules = 0; fired_total = 0; memset(counts, 0, sizeof counts); }
int sim_rule(int cls, const char *sub, long nth, int act, long err, double frac, int sticky) {
  if (nrules >= NRULE) return -1;
  rule_t *r = &rules[nrules]; memset(r, 0, sizeof *r);
  r->cls = cls; snprintf(r->sub, sizeof r->sub, "%s", sub ? sub : ""); r->nth = nth; r->act = act; r->err = err; r->frac = frac; r->sticky = sticky; r->live = 1;
  return nrules++;
}
void sim_disarm(void){ for (int i = 0; i < nrules; i++) rules[i].live = 0; }
long sim_count(int cls){ return counts[classidx(cls)]; }
void sim_zero_counts(void){ memset(counts, 0, sizeof counts); }
long sim_fired(int i){ return i < nrules ? rules[i].fired : -1; }
long sim_seen(int i){ return i < nrules ? rules[i].seen : -1; }
long sim_fired_total(void){ return fired_total; }
long sim_mutations(void){ return mutated; }
void sim_zero_mutations(void){ mutated = 0; }
void sim_log(int on){
  if (on && !glog) { void *m = mmap(NULL, sizeof *glog, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m != MAP_FAILED) glog = m; }
  log_on = on; if (glog) glog->n = 0; }
int sim_nlog(void){ return nlog; }
int sim_getlog(int i, char *op, long *size, long *res, int *fault, char *path) {
  if (i < 0 || i >= nlog) return -1;
  log_t *l = &glog->e[i]; strcpy(op, l->op); *size = l->size; *res = l->res; *fault = l->fault; strcpy(path, l->path); return 0;
}
int sim_tracked(int fd){ return fd >= 0 && fd < NFD ? trk[fd] : 0; }
int sim_open_fds(char *out, int cap) { int n = 0; size_t l = 0; out[0] = 0; for (int i = 0; i < NFD; i++) if (trk[i]) { n++; const char *p = fdpath[i] ? fdpath[i] : "?"; int w = snprintf(out + l, cap - l, "%d:%s%s\n", i, p, trkw[i] ? ":w" : ""); if (w > 0 && l + w < (size_t)cap) l += w; } return n; }
void sim_alloc(unsigned long lo, unsigned long hi, unsigned long min, int on){ np_lo = lo; np_hi = hi; alloc_min = min; alloc_on = on; }
int sim_present(void){ return 4242; }

static void track(int fd, const char *rel, int w){ if (fd >= 0 && fd < NFD) { trk[fd] = 1; trkw[fd] = w; free(fdpath[fd]); fdpath[fd] = strdup(rel); } }
static void untrack(int fd){ if (fd >= 0 && fd < NFD && trk[fd]) { trk[fd] = 0; trkw[fd] = 0; free(fdpath[fd]); fdpath[fd] = NULL; } }
static inline int T(int fd){ return g_on && fd >= 0 && fd < NFD && trk[fd]; }
static void die(void){ _exit(99); }

/* ---- opens ---- */
REAL(int, open, const char *, int, ...)
REAL(int, open64, const char *, int, ...)
REAL(int, openat, int, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(int, creat, const char *, mode_t)
REAL(FILE *, fopen, const char *, const char *)
REAL(FILE *, fopen64, const char *, const char *)

static int writing(int fl){ return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }

static int pre_open(const char *rel, int w) {
  rule_t *r = match(C_OPEN, rel);
  if (!r) return 0;
  if (r->act == A_CRASH_BEFORE || r->act == A_TORN_CRASH) die();
  if (r->act == A_CRASH_AFTER) return 2;
  addlog("open", rel, w, -1, r->act); errno = (int)r->err; return 1;
}
#define OPENBODY(call) \
  char rel[PATH_MAX]; \
  if (g_on && under(path, rel)) { \
    int w = writing(flags); int p = (flags & O_DIRECTORY) ? 0 : pre_open(rel, w); if (p == 1) return -1; \
    struct stat st; int had = w ? (stat(path, &st) == 0) : 1; \
    int fd = call; int e = errno; if (fd >= 0 && !(flags & O_DIRECTORY)) { track(fd, rel, w); if (w && ((flags & O_TRUNC) || (!had && (flags & O_CREAT)))) mutated++; } \
    addlog(w ? "openw" : "open", rel, flags & (O_CREAT|O_TRUNC), fd >= 0 ? 0 : -1, 0); if (p == 2) die(); errno = e; return fd; } \
  return call;

int open(const char *path, int flags, ...) { init_open(); mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } OPENBODY(real_open(path, flags, m)) }
int open64(const char *path, int flags, ...) { init_open64(); mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } OPENBODY(real_open64(path, flags, m)) }
int openat(int d, const char *path, int flags, ...) { init_openat(); mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } if (d != AT_FDCWD && path && path[0] != '/') return real_openat(d, path, flags, m); OPENBODY(real_openat(d, path, flags, m)) }
int openat64(int d, const char *path, int flags, ...) { init_openat64(); mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } if (d != AT_FDCWD && path && path[0] != '/') return real_openat64(d, path, flags, m); OPENBODY(real_openat64(d, path, flags, m)) }
int creat(const char *path, mode_t mode) { init_creat(); int flags = O_CREAT | O_WRONLY | O_TRUNC; OPENBODY(real_creat(path, mode)) }

static FILE *do_fopen(const char *path, const char *mode, FILE *(*fn)(const char *, const char *)) {
  char rel[PATH_MAX];
  if (g_on && under(path, rel)) {
    int w = mode[0] != 'r' || strchr(mode, '+') != NULL; int p = pre_open(rel, w); if (p == 1) return NULL;
    FILE *f = fn(path, mode); int e = errno; if (f) { track(fileno(f), rel, w); if (mode[0] == 'w') mutated++; }
    addlog(w ? "openw" : "open", rel, 0, f ? 0 : -1, 0); if (p == 2) die(); errno = e; return f;
  }
  return fn(path, mode);
}
FILE *fopen(const char *path, const char *mode) { init_fopen(); return do_fopen(path, mode, real_fopen); }
FILE *fopen64(const char *path, const char *mode) { init_fopen64(); return do_fopen(path, mode, real_fopen64); }

REAL(int, dup, int)
REAL(int, dup2, int, int)
REAL(int, fcntl, int, int, ...)
REAL(int, fcntl64, int, int, ...)
int dup(int fd) { init_dup(); int n = real_dup(fd); if (T(fd) && n >= 0) track(n, fdpath[fd], trkw[fd]); return n; }
int dup2(int fd, int fd2) { init_dup2(); int n = real_dup2(fd, fd2); if (n >= 0) { untrack(fd2); if (T(fd)) track(n, fdpath[fd], trkw[fd]); } return n; }
int fcntl(int fd, int cmd, ...) { init_fcntl(); va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); int n = real_fcntl(fd, cmd, p); if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && n >= 0 && T(fd)) track(n, fdpath[fd], trkw[fd]); return n; }
int fcntl64(int fd, int cmd, ...) { init_fcntl64(); if (!real_fcntl64) { real_fcntl64 = dlsym(RTLD_NEXT, "fcntl"); } va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); int n = real_fcntl64(fd, cmd, p); if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && n >= 0 && T(fd)) track(n, fdpath[fd], trkw[fd]); return n; }

/* ---- reads ---- */
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, pread, int, void *, size_t, off_t)
REAL(ssize_t, pread64, int, void *, size_t, off_t)
REAL(ssize_t, readv, int, const struct iovec *, int)
REAL(size_t, fread, void *, size_t, size_t, FILE *)

/* 0: go on (n possibly shortened), 1: return *ret */
static int pre_read(int fd, size_t *n, ssize_t *ret) {
  rule_t *r = match(C_READ, fdpath[fd]);
  if (!r) return 0;
  switch (r->act) {
    case A_SHORT: { size_t m = (size_t)(*n * r->frac); if (m < 1) m = 1; if (m < *n) *n = m; addlog("rdshort", fdpath[fd], *n, 0, r->act); return 0; }
    case A_EOF: addlog("rdeof", fdpath[fd], *n, 0, r->act); *ret = 0; return 1;
    case A_CRASH_BEFORE: case A_CRASH_AFTER: case A_TORN_CRASH: die();
    default: addlog("rderr", fdpath[fd], *n, -1, r->act); errno = (int)r->err; *ret = -1; return 1;
  }
}
#define RD(call) if (T(fd) && n > 0) { ssize_t ret; if (pre_read(fd, &n, &ret)) return ret; ssize_t g = call; int e = errno; addlog("read", fdpath[fd], n, g, 0); errno = e; return g; } return call;
ssize_t read(int fd, void *b, size_t n) { init_read(); RD(real_read(fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { init_pread(); RD(real_pread(fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { init_pread64(); RD(real_pread64(fd, b, n, o)) }
ssize_t readv(int fd, const struct iovec *v, int c) { init_readv(); size_t n = 1; if (T(fd)) { ssize_t ret; if (pre_read(fd, &n, &ret)) return ret; } return real_readv(fd, v, c); }
extern ssize_t __read_chk(int, void *, size_t, size_t);
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return read(fd, b, n); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t l) { (void)l; return pread(fd, b, n, o); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off_t o, size_t l) { (void)l; return pread64(fd, b, n, o); }

size_t fread(void *b, size_t s, size_t c, FILE *f) {
  init_fread(); int fd = fileno(f);
  if (T(fd) && s * c > 0) {
    rule_t *r = match(C_READ, fdpath[fd]);
    if (r) {
      if (r->act == A_CRASH_BEFORE || r->act == A_CRASH_AFTER || r->act == A_TORN_CRASH) die();
      if (r->act == A_SHORT) { /* stdio retries short reads */ addlog("rdshort", fdpath[fd], s * c, 0, r->act); return real_fread(b, s, c, f); }
      size_t m = r->act == A_EOF || r->act == A_ERR ? (size_t)(c * r->frac) : 0; if (m >= c) m = c - 1;
      size_t g = m ? real_fread(b, s, m, f) : 0;
      addlog("freadflt", fdpath[fd], s * c, g * s, r->act);
      if (r->act == A_ERR || r->act == A_TORN_ERR) { f->_flags |= 0x20 /* _IO_ERR_SEEN */; errno = (int)r->err; } else f->_flags |= 0x10 /* _IO_EOF_SEEN */;
      return g;
    }
    size_t g = real_fread(b, s, c, f); addlog("fread", fdpath[fd], s * c, g * s, 0); return g;
  }
  return real_fread(b, s, c, f);
}
size_t __fread_chk(void *b, size_t l, size_t s, size_t c, FILE *f) { (void)l; return fread(b, s, c, f); }

/* ---- writes ---- */
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
REAL(ssize_t, pwrite64, int, const void *, size_t, off_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(size_t, fwrite, const void *, size_t, size_t, FILE *)
REAL(int, ftruncate, int, off_t)
REAL(int, ftruncate64, int, off_t)
REAL(int, fsync, int)
REAL(int, fdatasync, int)

/* 0 plain, 1 return *ret, 2 crash after */
static int pre_write(int fd, size_t *n, ssize_t *ret, size_t *torn, int *after) {
  *torn = 0; *after = 0;
  rule_t *r = match(C_WRITE, fdpath[fd]);
  if (!r) return 0;
  size_t m = (size_t)(*n * r->frac);
  switch (r->act) {
    case A_SHORT: if (m < 1) m = 1; if (m < *n) *n = m; addlog("wrshort", fdpath[fd], *n, 0, r->act); return 0;
    case A_CRASH_BEFORE: die();
    case A_CRASH_AFTER: *after = 1; return 0;
    case A_TORN_CRASH: if (m == 0) die(); *n = m; *after = 1; return 0;
    case A_TORN_ERR: if (m > 0) { *n = m; *torn = (size_t)r->err; r->live = 1; r->sticky = 1; r->nth = 0; r->act = A_ERR; addlog("wrtorn", fdpath[fd], *n, 0, A_TORN_ERR); return 0; } /* fallthrough */
    default: addlog("wrerr", fdpath[fd], *n, -1, r->act); errno = (int)r->err; *ret = -1; return 1;
  }
}
#define WR(call) if (T(fd)) { ssize_t ret; size_t torn; int after; if (pre_write(fd, &n, &ret, &torn, &after)) return ret; mutated++; ssize_t g = call; int e = errno; addlog("write", fdpath[fd], n, g, 0); if (after) die(); errno = e; return g; } return call;
ssize_t write(int fd, const void *b, size_t n) { init_write(); WR(real_write(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { init_pwrite(); WR(real_pwrite(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { init_pwrite64(); WR(real_pwrite64(fd, b, n, o)) }
ssize_t writev(int fd, const struct iovec *v, int c) { init_writev(); if (T(fd)) { size_t n = 1; ssize_t ret; size_t torn; int after; if (pre_write(fd, &n, &ret, &torn, &after)) return ret; mutated++; ssize_t g = real_writev(fd, v, c); if (after) die(); return g; } return real_writev(fd, v, c); }
size_t fwrite(const void *b, size_t s, size_t c, FILE *f) {
  init_fwrite(); int fd = f ? fileno(f) : -1;
  if (T(fd) && s * c > 0) { size_t n = s * c; ssize_t ret; size_t torn; int after; if (pre_write(fd, &n, &ret, &torn, &after)) { f->_flags |= 0x20; return 0; } mutated++;
    size_t g = real_fwrite(b, 1, n, f); fflush(f); addlog("fwrite", fdpath[fd], n, g, 0); if (after) die(); if (g < s * c) { f->_flags |= 0x20; errno = ENOSPC; } return g / s; }
  return real_fwrite(b, s, c, f);
}
#define TR(call) if (T(fd)) { size_t n = 1; ssize_t ret; size_t torn; int after; if (pre_write(fd, &n, &ret, &torn, &after)) return -1; mutated++; int g = call; addlog("ftrunc", fdpath[fd], l, g, 0); if (after) die(); return g; } return call;
int ftruncate(int fd, off_t l) { init_ftruncate(); TR(real_ftruncate(fd, l)) }
int ftruncate64(int fd, off_t l) { init_ftruncate64(); TR(real_ftruncate64(fd, l)) }
#define SY(call) if (T(fd)) { rule_t *r = match(C_SYNC, fdpath[fd]); if (r) { if (r->act >= A_CRASH_BEFORE && r->act <= A_TORN_CRASH) die(); addlog("sync!", fdpath[fd], 0, -1, r->act); errno = (int)r->err; return -1; } int g = call; int e = errno; addlog("sync", fdpath[fd], 0, g, 0); errno = e; return g; } return call;
int fsync(int fd) { init_fsync(); SY(real_fsync(fd)) }
int fdatasync(int fd) { init_fdatasync(); SY(real_fdatasync(fd)) }

/* ---- closes ---- */
REAL(int, close, int)
REAL(int, fclose, FILE *)
int close(int fd) {
  init_close();
  if (T(fd)) {
    rule_t *r = match(C_CLOSE, fdpath[fd]); char p[96]; snprintf(p, sizeof p, "%s", fdpath[fd]); untrack(fd);
    if (r) { if (r->act == A_CRASH_BEFORE || r->act == A_TORN_CRASH) die(); int g = real_close(fd); addlog("closeflt", p, 0, -1, r->act); if (r->act == A_CRASH_AFTER) die(); (void)g; errno = (int)r->err; return -1; }
    int g = real_close(fd); addlog("close", p, 0, g, 0); return g;
  }
  if (fd >= 0 && fd < NFD) untrack(fd);
  return real_close(fd);
}
int fclose(FILE *f) { init_fclose(); int fd = f ? fileno(f) : -1; if (T(fd)) { addlog("close", fdpath[fd], 0, 0, 0); counts[classidx(C_CLOSE)]++; untrack(fd); } return real_fclose(f); }

/* ---- names ---- */
REAL(int, rename, const char *, const char *)
REAL(int, renameat, int, const char *, int, const char *)
REAL(int, unlink, const char *)
REAL(int, unlinkat, int, const char *, int)
REAL(int, mkdir, const char *, mode_t)
REAL(int, rmdir, const char *)
REAL(int, link, const char *, const char *)
REAL(int, symlink, const char *, const char *)
REAL(int, truncate, const char *, off_t)
REAL(int, truncate64, const char *, off_t)
REAL(int, chmod, const char *, mode_t)
REAL(int, utimensat, int, const char *, const struct timespec *, int)
#define META(name, p, call) char rel[PATH_MAX]; if (g_on && under(p, rel)) { rule_t *r = match(C_META, rel); int after = 0; if (r) { if (r->act == A_CRASH_BEFORE || r->act == A_TORN_CRASH) die(); if (r->act == A_CRASH_AFTER) after = 1; else { addlog(name "!", rel, 0, -1, r->act); errno = (int)r->err; return -1; } } int g = call; int e = errno; if (g == 0) mutated++; addlog(name, rel, 0, g, 0); if (after) die(); errno = e; return g; } return call;
static void from(const char *a) { char rel[PATH_MAX]; if (log_on && g_on && under(a, rel)) addlog("from", rel, 0, 0, 0); }
int rename(const char *a, const char *b) { init_rename(); from(a); META("rename", b, real_rename(a, b)) }
int renameat(int da, const char *a, int db, const char *b) { init_renameat(); if (da != AT_FDCWD || db != AT_FDCWD) return real_renameat(da, a, db, b); from(a); META("rename", b, real_renameat(da, a, db, b)) }
int unlink(const char *p) { init_unlink(); META("unlink", p, real_unlink(p)) }
int unlinkat(int d, const char *p, int fl) { init_unlinkat(); if (d != AT_FDCWD && p[0] != '/') return real_unlinkat(d, p, fl); META("unlink", p, real_unlinkat(d, p, fl)) }
int mkdir(const char *p, mode_t m) { init_mkdir(); META("mkdir", p, real_mkdir(p, m)) }
int rmdir(const char *p) { init_rmdir(); META("rmdir", p, real_rmdir(p)) }
int link(const char *a, const char *p) { init_link(); META("link", p, real_link(a, p)) }
int symlink(const char *a, const char *p) { init_symlink(); META("symlink", p, real_symlink(a, p)) }
int truncate(const char *p, off_t l) { init_truncate(); META("truncate", p, real_truncate(p, l)) }
int truncate64(const char *p, off_t l) { init_truncate64(); META("truncate", p, real_truncate64(p, l)) }
int chmod(const char *p, mode_t m) { init_chmod(); META("chmod", p, real_chmod(p, m)) }
int utimensat(int d, const char *p, const struct timespec *t, int f) { init_utimensat(); if (!p || d != AT_FDCWD) return real_utimensat(d, p, t, f); META("utime", p, real_utimensat(d, p, t, f)) }

/* ---- allocations made by numpy's array core ---- */
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t);
static inline int alloc_fail(size_t n, void *ra) {
  if (!alloc_on || n < alloc_min) return 0;
  unsigned long a = (unsigned long)ra; if (a < np_lo || a >= np_hi) return 0;
  rule_t *r = match(C_ALLOC, "alloc"); if (!r) return 0; errno = ENOMEM; return 1;
}
void *malloc(size_t n) { if (__builtin_expect(alloc_on, 0) && alloc_fail(n, __builtin_return_address(0))) return NULL; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (__builtin_expect(alloc_on, 0) && alloc_fail(a * b, __builtin_return_address(0))) return NULL; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (__builtin_expect(alloc_on, 0) && alloc_fail(n, __builtin_return_address(0))) return NULL; return __libc_realloc(p, n); }

/* ---- the interpreter lock, as the compiled parts of the library take it ----
   sim_hook_gil(file): in the loaded library `file`, calls that take the interpreter lock back (after a section without it)
   go through here, and then call the Python callable set with sim_gil_cb: a place where another thread may go on. */
#include <link.h>
#include <elf.h>
typedef int (*gilensure_t)(void); typedef void (*restore_t)(void *);
static gilensure_t r_ensure; static restore_t r_restore;
static void *(*p_call)(void *); static void (*p_decref)(void *); static void (*p_fetch)(void **, void **, void **); static void (*p_rest)(void *, void *, void *);
static void *gil_cb; static long gil_points;
static void gil_point(void) {
  if (!gil_cb) return;
  void *a, *b, *c; gil_points++;
  p_fetch(&a, &b, &c);
  void *r = p_call(gil_cb);
  if (r) p_decref(r); else { void *x, *y, *z; p_fetch(&x, &y, &z); if (x) p_decref(x); if (y) p_decref(y); if (z) p_decref(z); }
  p_rest(a, b, c);
}
static int h_ensure(void) { int s = r_ensure(); gil_point(); return s; }
static void h_restore(void *ts) { r_restore(ts); gil_point(); }
void sim_gil_cb(void *f) { gil_cb = f; }
long sim_gil_points(void) { return gil_points; }
static int patch_slot(ElfW(Addr) *slot, void *to) {
  long pg = sysconf(_SC_PAGESIZE); char *p = (char *)((unsigned long)slot & ~(pg - 1));
  if (mprotect(p, pg * 2, PROT_READ | PROT_WRITE) != 0 && mprotect(p, pg, PROT_READ | PROT_WRITE) != 0) return 0;
  *slot = (ElfW(Addr))to; return 1;
}
int sim_hook_gil(const char *file) {
  r_ensure = (gilensure_t)dlsym(RTLD_DEFAULT, "PyGILState_Ensure"); r_restore = (restore_t)dlsym(RTLD_DEFAULT, "PyEval_RestoreThread");
  p_call = dlsym(RTLD_DEFAULT, "PyObject_CallNoArgs"); p_decref = dlsym(RTLD_DEFAULT, "Py_DecRef");
  p_fetch = dlsym(RTLD_DEFAULT, "PyErr_Fetch"); p_rest = dlsym(RTLD_DEFAULT, "PyErr_Restore");
  if (!r_ensure || !r_restore || !p_call || !p_decref || !p_fetch || !p_rest) return -1;
  struct link_map *lm = dlopen(file, RTLD_NOLOAD | RTLD_LAZY); if (!lm) return -2;
  ElfW(Rela) *rel[2] = {0, 0}; size_t n[2] = {0, 0}; ElfW(Sym) *sym = 0; const char *str = 0;
  for (ElfW(Dyn) *d = lm->l_ld; d->d_tag != DT_NULL; d++) switch (d->d_tag) {
    case DT_JMPREL: rel[0] = (void *)d->d_un.d_ptr; break; case DT_PLTRELSZ: n[0] = d->d_un.d_val / sizeof(ElfW(Rela)); break;
    case DT_RELA: rel[1] = (void *)d->d_un.d_ptr; break; case DT_RELASZ: n[1] = d->d_un.d_val / sizeof(ElfW(Rela)); break;
    case DT_SYMTAB: sym = (void *)d->d_un.d_ptr; break; case DT_STRTAB: str = (void *)d->d_un.d_ptr; break; }
  int done = 0;
  for (int k = 0; k < 2; k++) for (size_t i = 0; rel[k] && i < n[k]; i++) {
    const char *nm = str + sym[ELF64_R_SYM(rel[k][i].r_info)].st_name; int t = ELF64_R_TYPE(rel[k][i].r_info);
    if (t != R_X86_64_JUMP_SLOT && t != R_X86_64_GLOB_DAT) continue;
    ElfW(Addr) *slot = (void *)(lm->l_addr + rel[k][i].r_offset);
    if (!strcmp(nm, "PyGILState_Ensure")) done += patch_slot(slot, h_ensure);
    else if (!strcmp(nm, "PyEval_RestoreThread")) done += patch_slot(slot, h_restore);
  }
  dlclose(lm);
  return done;
}
