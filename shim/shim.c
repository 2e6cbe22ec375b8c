// Fault-injecting stand-in for the file-system calls of one process (LD_PRELOAD).
// NOMSIM_FS = "seed=N;dir:fail=K,unk=1;NAME:key=val,key=val;..."
//   per file (by base name): open=ERRNO openat=N (which open fails, 0 = every) oeintr=COUNT
//   chunk=MAX (short reads) eintr=PERMILLE read=ERRNO rat=N (from the N-th read) byte=OFF
//   sticky=0/1 seek=ERRNO
// NOMSIM_OUT = "CHUNK,EINTR,ERRNO,AT,ERR2": standard output and error take at most CHUNK bytes a call, interrupted
//   EINTR times per mille; after AT bytes standard output fails with ERRNO.
//   ERR2: every write to standard error fails with it.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXF 64
typedef struct {
  char name[300];
  long open_err, open_at, oeintr, chunk, eintr, read_err, rat, byte, sticky, seek_err;
  long opens, fired;
} plan;
static plan P[MAXF];
static int np = -1;
static uint64_t seed, dir_fail, dir_unk;
typedef struct { plan *p; uint64_t rng; long reads; long pos; } fdst;
static fdst FD[1024];

static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t hash(const char *s) {
  uint64_t h = 7;
  while (*s) h = mix(h ^ (unsigned char)*s++);
  return h;
}
static void init(void) {
  if (np >= 0) return;
  np = 0;
  const char *e = getenv("NOMSIM_FS");
  if (!e) return;
  char *d = strdup(e), *sv = 0;
  for (char *t = strtok_r(d, ";", &sv); t; t = strtok_r(0, ";", &sv)) {
    if (!strncmp(t, "seed=", 5)) { seed = strtoull(t + 5, 0, 10); continue; }
    char *c = strchr(t, ':');
    if (!c || np >= MAXF) continue;
    *c = 0;
    plan *p = &P[np];
    memset(p, 0, sizeof *p);
    p->byte = -1;
    snprintf(p->name, sizeof p->name, "%s", t);
    int is_dir = !strcmp(t, "dir");
    char *sv2 = 0;
    for (char *k = strtok_r(c + 1, ",", &sv2); k; k = strtok_r(0, ",", &sv2)) {
      char *q = strchr(k, '=');
      if (!q) continue;
      *q = 0;
      long v = atol(q + 1);
      if (is_dir) {
        if (!strcmp(k, "fail")) dir_fail = v;
        if (!strcmp(k, "unk")) dir_unk = v;
        continue;
      }
      if (!strcmp(k, "open")) p->open_err = v;
      else if (!strcmp(k, "openat")) p->open_at = v;
      else if (!strcmp(k, "oeintr")) p->oeintr = v;
      else if (!strcmp(k, "chunk")) p->chunk = v;
      else if (!strcmp(k, "eintr")) p->eintr = v;
      else if (!strcmp(k, "read")) p->read_err = v;
      else if (!strcmp(k, "rat")) p->rat = v;
      else if (!strcmp(k, "byte")) p->byte = v;
      else if (!strcmp(k, "sticky")) p->sticky = v;
      else if (!strcmp(k, "seek")) p->seek_err = v;
    }
    if (!is_dir) np++;
  }
  free(d);
}
static plan *find(const char *path) {
  const char *b = strrchr(path, '/');
  b = b ? b + 1 : path;
  for (int i = 0; i < np; i++)
    if (!strcmp(P[i].name, b)) return &P[i];
  return 0;
}
static void note(const char *what, const char *name) {
  const char *l = getenv("NOMSIM_LOG");
  if (!l) return;
  int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT, 0600);
  if (fd < 0) return;
  char b[400];
  int n = snprintf(b, sizeof b, "%s %s\n", what, name);
  syscall(SYS_write, fd, b, n);
  syscall(SYS_close, fd);
}
static int do_open(int at, const char *path, int flags, int mode) {
  init();
  plan *p = find(path);
  if (p) {
    if (p->oeintr > 0) { p->oeintr--; note("open_eintr", p->name); errno = EINTR; return -1; }
    p->opens++;
    if (p->open_err && (!p->open_at || p->open_at == p->opens)) { note("open_error", p->name); errno = p->open_err; return -1; }
  }
  int fd = syscall(SYS_openat, at, path, flags, mode);
  if (fd >= 0 && fd < 1024) {
    FD[fd].p = p;
    FD[fd].reads = 0;
    FD[fd].pos = 0;
    FD[fd].rng = p ? mix(seed ^ hash(p->name) ^ p->opens) : 0;
  }
  return fd;
}
int open(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
  return do_open(AT_FDCWD, path, flags, m);
}
int open64(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
  return do_open(AT_FDCWD, path, flags, m);
}
int openat64(int at, const char *path, int flags, ...) {
  va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
  return do_open(at, path, flags, m);
}
ssize_t read(int fd, void *buf, size_t n) {
  fdst *f = fd >= 0 && fd < 1024 && FD[fd].p ? &FD[fd] : 0;
  if (f && n) {
    plan *p = f->p;
    f->reads++;
    if (p->eintr) {
      f->rng = mix(f->rng);
      if ((long)(f->rng % 1000) < p->eintr) { note("eintr", p->name); errno = EINTR; return -1; }
    }
    if (p->read_err && (p->sticky || !p->fired)) {
      int hit = p->byte >= 0 ? f->pos >= p->byte : f->reads >= p->rat;
      if (hit) { p->fired++; note("read_error", p->name); errno = p->read_err; return -1; }
      if (p->byte >= 0 && f->pos + (long)n > p->byte) n = p->byte - f->pos;
    }
    if (p->chunk) {
      f->rng = mix(f->rng);
      size_t k = 1 + f->rng % p->chunk;
      if (k < n) { n = k; }
    }
  }
  ssize_t r = syscall(SYS_read, fd, buf, n);
  if (f && r > 0) f->pos += r;
  return r;
}
// ---- standard output and error
static long wc = -1, weintr, werr, wat, wpos, werr2;
static uint64_t wrng, wshort, wintr; // noted once a process
ssize_t write(int fd, const void *buf, size_t n) {
  if (fd == 1 || fd == 2) {
    if (wc < 0) {
      const char *e = getenv("NOMSIM_OUT");
      wc = 0;
      if (e) sscanf(e, "%ld,%ld,%ld,%ld,%ld", &wc, &weintr, &werr, &wat, &werr2);
      init();
      wrng = mix(seed ^ 99);
    }
    if (n && weintr) {
      wrng = mix(wrng);
      if ((long)(wrng % 1000) < weintr) { if (!wintr++) note("write_eintr", "out"); errno = EINTR; return -1; }
    }
    if (fd == 2 && werr2 && n) { note("write_fault", "err"); errno = werr2; return -1; }
    if (fd == 1 && werr && n) {
      if (wpos >= wat) { note("write_fault", "out"); errno = werr; return -1; }
      if (wpos + (long)n > wat) n = wat - wpos;
    }
    if (wc && n) {
      wrng = mix(wrng);
      size_t k = 1 + wrng % wc;
      if (k < n) { n = k; if (!wshort++) note("short_write", "out"); }
    }
  }
  ssize_t r = syscall(SYS_write, fd, buf, n);
  if (fd == 1 && r > 0) wpos += r;
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (fd != 1 && fd != 2) return syscall(SYS_writev, fd, v, k);
  for (int i = 0; i < k; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
static off64_t do_seek(int fd, off64_t o, int w) {
  fdst *f = fd >= 0 && fd < 1024 && FD[fd].p ? &FD[fd] : 0;
  if (f && f->p->seek_err) { note("seek_error", f->p->name); errno = f->p->seek_err; return -1; }
  off64_t r = syscall(SYS_lseek, fd, o, w);
  if (f && r >= 0) f->pos = r;
  return r;
}
off64_t lseek64(int fd, off64_t o, int w) { return do_seek(fd, o, w); }
off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
int close(int fd) {
  if (fd >= 0 && fd < 1024) FD[fd].p = 0;
  return syscall(SYS_close, fd);
}

// ---- directory: a seeded order, unknown types, a failure part-way
typedef struct { DIR *d; struct dirent64 **v; int n, i, failed; } dst;
static dst D[8];
static int by_name(const void *a, const void *b) {
  return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name);
}
DIR *opendir(const char *name) {
  static DIR *(*real)(const char *);
  static struct dirent64 *(*rd)(DIR *);
  init();
  if (!real) { real = dlsym(RTLD_NEXT, "opendir"); rd = dlsym(RTLD_NEXT, "readdir64"); }
  DIR *d = real(name);
  if (!d || !getenv("NOMSIM_FS")) return d;
  for (int k = 0; k < 8; k++)
    if (!D[k].d) {
      dst *s = &D[k];
      memset(s, 0, sizeof *s);
      s->d = d;
      struct dirent64 *e;
      while ((e = rd(d))) {
        s->v = realloc(s->v, (s->n + 1) * sizeof *s->v);
        struct dirent64 *c = calloc(1, sizeof *c);
        memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c);
        s->v[s->n++] = c;
      }
      qsort(s->v, s->n, sizeof *s->v, by_name);
      uint64_t r = mix(seed ^ 77);
      for (int i = s->n - 1; i > 0; i--) {
        r = mix(r);
        int j = r % (i + 1);
        struct dirent64 *t = s->v[i]; s->v[i] = s->v[j]; s->v[j] = t;
      }
      break;
    }
  return d;
}
static struct dirent64 *next(DIR *d) {
  static struct dirent64 *(*rd)(DIR *);
  for (int k = 0; k < 8; k++)
    if (D[k].d == d) {
      dst *s = &D[k];
      if (dir_fail && s->i + 1 == (int)dir_fail && !s->failed) { s->failed = 1; note("readdir_error", "dir"); errno = EIO; return 0; }
      if (s->i >= s->n) return 0;
      struct dirent64 *e = s->v[s->i++];
      if (dir_unk) e->d_type = DT_UNKNOWN;
      return e;
    }
  if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
  return rd(d);
}
struct dirent64 *readdir64(DIR *d) { return next(d); }
struct dirent *readdir(DIR *d) { return (struct dirent *)next(d); }
int closedir(DIR *d) {
  static int (*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "closedir");
  for (int k = 0; k < 8; k++)
    if (D[k].d == d) D[k].d = 0;
  return real(d);
}
// ---- randomness
ssize_t getrandom(void *b, size_t n, unsigned f) {
  init();
  const char *h = getenv("NOMSIM_HASH");
  uint64_t x = mix(h ? strtoull(h, 0, 10) : 1);
  for (size_t i = 0; i < n; i++) { x = mix(x); ((unsigned char *)b)[i] = x; }
  return n;
}
