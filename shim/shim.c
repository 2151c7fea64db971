// Simulation seam: preloaded into the REAL, unmodified binaries.
//
// Every thread of the process runs only while the driver (/verif/sim) has granted it the
// token; every intercepted call is a scheduling point at which the thread publishes what it is
// about to do in shared memory and waits for the driver's decision (proceed, fail with errno,
// transfer fewer bytes, ...). Futexes, thread start/exit/join, epoll, clocks, sleeps and
// randomness are virtual, standard input/output/error are supplied and consumed by the driver,
// and files are real files in the driver's scratch directory. Without DST_FD in the environment
// the library is inert.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NSLOT 96
#define BUFSZ 65536
#define PATHSZ 1024
#define NPREEMPT 256

enum { OP_NONE, OP_START, OP_FWAIT, OP_FWAKE, OP_EPOLL, OP_SLEEP, OP_YIELD, OP_JOIN, OP_EXIT,
       OP_OPEN, OP_READ, OP_WRITE, OP_STDIN, OP_STDOUT, OP_STDERR, OP_OPENDIR, OP_READDIR,
       OP_STAT, OP_MUTATE, OP_PREEMPT, OP_ABORT };
enum { ST_FREE, ST_WAIT, ST_RUN, ST_DEAD };
enum { ACT_PASS, ACT_ERR, ACT_LIMIT, ACT_KILL };

struct slot {
  volatile uint32_t go;
  volatile uint32_t state;
  uint32_t op;
  int32_t fd;
  uint64_t a[4];
  uint32_t act;
  int32_t tid;
  uint64_t arg;
  uint64_t arg2;
  // result of the last completed call
  uint64_t rseq;
  int64_t rret;
  int32_t rerr;
  uint32_t buflen;
  uint32_t rlen, gen;             // gen: how many threads have used this slot
  char path[PATHSZ];
  unsigned char buf[BUFSZ];     // data of the published operation
  unsigned char rbuf[BUFSZ];    // data of the last completed read
};
struct shm {
  uint32_t magic;
  uint32_t nslot;
  uint64_t now_ns;
  uint64_t rng;
  volatile uint32_t dirty;      // some eventfd was written
  uint32_t mallocs_on;
  uint64_t malloc_count;
  uint32_t npreempt, ipreempt;
  uint64_t preempt[NPREEMPT];
  uint32_t last_wake_slot;
  uint32_t unknown_futex;
  uint64_t rand_bytes;
  int64_t live;                 // bytes on the heap
  struct slot s[NSLOT];
};

static struct shm *G;
static int evfd = -1;
static char root[PATHSZ];       // absolute scratch directory
static size_t rootlen;
static __thread struct slot *self __attribute__((tls_model("initial-exec")));
static __thread int inshim __attribute__((tls_model("initial-exec")));
static pthread_key_t exit_key;

#define MAXFD 1024
static char *fdpath[MAXFD];
static int fdflags[MAXFD];

static long raw_futex(volatile uint32_t *a, int op, uint32_t v) {
  long r;
  register long r10 __asm__("r10") = 0;
  __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
  return r;
}
static long raw3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}

static void wait_go(struct slot *s) {
  while (__atomic_load_n(&s->go, __ATOMIC_ACQUIRE) == 0) raw_futex(&s->go, FUTEX_WAIT, 0);
  __atomic_store_n(&s->go, 0, __ATOMIC_RELEASE);
}
// publish the operation, give up the token, wait for the decision
static uint32_t point(uint32_t op, int fd, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3) {
  struct slot *s = self;
  uint64_t one = 1;
  s->op = op; s->fd = fd;
  s->a[0] = a0; s->a[1] = a1; s->a[2] = a2; s->a[3] = a3;
  __atomic_store_n(&s->state, ST_WAIT, __ATOMIC_RELEASE);
  raw3(SYS_write, evfd, (long)&one, 8);
  wait_go(s);
  if (s->act == ACT_KILL) raw3(SYS_exit_group, 137, 0, 0);
  return s->act;
}
static void result(int64_t ret, int err) {
  self->rret = ret; self->rerr = err; self->rseq++;
}
#define LIVE (G && self && !inshim)

static void on_thread_exit(void *p) {
  struct slot *s = p;
  uint64_t one = 1;
  self = NULL;
  s->op = OP_EXIT;
  __atomic_store_n(&s->state, ST_DEAD, __ATOMIC_RELEASE);
  raw3(SYS_write, evfd, (long)&one, 8);
}

__attribute__((constructor)) static void init(void) {
  const char *f = getenv("DST_FD");
  if (!f) return;
  int shmfd; 
  if (sscanf(f, "%d,%d", &shmfd, &evfd) != 2) return;
  const char *r = getenv("DST_ROOT");
  snprintf(root, sizeof root, "%s", r ? r : "");
  rootlen = strlen(root);
  struct shm *g = mmap(NULL, sizeof *g, PROT_READ | PROT_WRITE, MAP_SHARED, shmfd, 0);
  if (g == MAP_FAILED) _exit(98);
  if (g->magic != 0x44535431) _exit(97);
  pthread_key_create(&exit_key, on_thread_exit);
  unsetenv("LD_PRELOAD");
  unsetenv("DST_FD");
  self = &g->s[0];
  self->tid = (int32_t)raw3(SYS_gettid, 0, 0, 0);
  g->nslot = 1;
  G = g;
  point(OP_START, 0, 0, 0, 0, 0);
}

// ---------------------------------------------------------------- threads
extern void __libc_free(void *);
struct start { void *(*fn)(void *); void *arg; struct slot *s; };
static void *trampoline(void *p) {
  struct start st = *(struct start *)p;
  self = st.s;
  st.s->tid = (int32_t)raw3(SYS_gettid, 0, 0, 0);
  wait_go(st.s);
  if (st.s->act == ACT_KILL) raw3(SYS_exit_group, 137, 0, 0);
  __libc_free(p);
  pthread_setspecific(exit_key, st.s);
  return st.fn(st.arg);
}
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static pthread_t tids[NSLOT];
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  if (!LIVE) return real(t, at, fn, arg);
  uint32_t k = 1;
  while (k < G->nslot && G->s[k].state != ST_FREE) k++;
  if (k >= NSLOT) { G->unknown_futex = 2; return EAGAIN; }
  inshim++;
  struct start *st = __libc_malloc(sizeof *st);
  struct slot *s = &G->s[k];
  st->fn = fn; st->arg = arg; st->s = s;
  s->op = OP_START; s->go = 0; s->tid = 0; s->gen++;
  int r = real(t, at, trampoline, st);
  if (r == 0) { s->state = ST_WAIT; if (k == G->nslot) G->nslot = k + 1; tids[k] = *t; }
  inshim--;
  return r;
}
int pthread_join(pthread_t t, void **ret) {
  static int (*real)(pthread_t, void **);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
  if (LIVE) {
    for (uint32_t k = G->nslot; k-- > 1;)
      // thread handles are reused: only a thread that still runs counts
      if (G->s[k].state != ST_DEAD && G->s[k].state != ST_FREE && pthread_equal(tids[k], t)) {
        point(OP_JOIN, -1, k, G->s[k].gen, 0, 0);
        break;
      }
  }
  return real(t, ret);
}

static uint64_t now(void) { return G->now_ns; }
static int fut_wait(volatile uint32_t *addr, uint32_t val, uint64_t deadline) {
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
  uint32_t act = point(OP_FWAIT, -1, (uint64_t)addr, deadline, 0, 0);
  if (act == ACT_ERR) { errno = (int)self->arg; return -1; }
  return 0;
}

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (LIVE) {
    if (n == SYS_futex) {
      int op = (int)b & FUTEX_CMD_MASK;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        uint64_t dl = UINT64_MAX;
        const struct timespec *ts = (void *)d;
        if (ts) {
          dl = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
          if (op == FUTEX_WAIT) dl += now();
        }
        return fut_wait((volatile uint32_t *)a, (uint32_t)c, dl);
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        uint64_t want = (uint32_t)c > 0x7fffffffu ? 0x7fffffff : (uint32_t)c;
        point(OP_FWAKE, -1, (uint64_t)a, want, 0, 0);
        return (long)self->arg;
      }
      G->unknown_futex = 1;
    } else if (n == SYS_getrandom) {
      ssize_t getrandom(void *, size_t, unsigned);
      return getrandom((void *)a, (size_t)b, 0);
    }
  }
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (!G) {
    long r = raw3(SYS_getrandom, (long)buf, (long)len, flags);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
  }
  unsigned char *p = buf;
  for (size_t i = 0; i < len; i++) {
    if (i % 8 == 0) {
      G->rng += 0x9e3779b97f4a7c15ull;
    }
    uint64_t z = G->rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31;
    p[i] = (unsigned char)(z >> (8 * (i % 8)));
  }
  G->rand_bytes += len;
  return (ssize_t)len;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!G) {
    long r = raw3(SYS_clock_gettime, c, (long)ts, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
  }
  uint64_t t = now() + (c == CLOCK_REALTIME ? 1700000000000000000ull : 0);
  ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull);
  return 0;
}
static int vsleep(const struct timespec *rq, int abs) {
  uint64_t t = (uint64_t)rq->tv_sec * 1000000000ull + (uint64_t)rq->tv_nsec;
  point(OP_SLEEP, -1, abs ? t : now() + t, 0, 0, 0);
  return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  (void)rm;
  if (LIVE) return vsleep(rq, 0);
  long r = raw3(SYS_nanosleep, (long)rq, (long)rm, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
  if (LIVE) return vsleep(rq, fl & TIMER_ABSTIME);
  (void)c; (void)fl;
  return nanosleep(rq, rm) ? errno : 0;
}
int sched_yield(void) {
  if (LIVE) { point(OP_YIELD, -1, 0, 0, 0, 0); return 0; }
  raw3(SYS_sched_yield, 0, 0, 0);
  return 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
  static int (*real)(int, struct epoll_event *, int, int);
  if (!real) real = dlsym(RTLD_NEXT, "epoll_wait");
  if (!LIVE || timeout == 0) return real(ep, ev, max, timeout);
  uint64_t dl = timeout < 0 ? UINT64_MAX : now() + (uint64_t)timeout * 1000000ull;
  for (;;) {
    uint32_t act = point(OP_EPOLL, ep, dl, 0, 0, 0);
    if (act == ACT_ERR) { errno = (int)self->arg; return -1; }
    int r = real(ep, ev, max, 0);
    if (r != 0 || now() >= dl) return r;
  }
}

// ---------------------------------------------------------------- files
// 1: inside the scratch directory (path is rewritten relative to it), 0: elsewhere
static int inside(int dirfd, const char *p, char *out) {
  const char *rel = NULL;
  if (!p) return 0;
  if (p[0] == 0) return 0;
  if (p[0] != '/') {
    if (dirfd == AT_FDCWD) rel = p;
    else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) {
      snprintf(out, PATHSZ, "%s/%s", fdpath[dirfd], p);
      return 1;
    } else return 0;
  } else if (!strncmp(p, "/proc/self/cwd", 14) && (p[14] == '/' || p[14] == 0)) rel = p + 14;
  else if (rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || p[rootlen] == 0)) rel = p + rootlen;
  else return 0;
  while (*rel == '/') rel++;
  while (rel[0] == '.' && rel[1] == '/') rel += 2;
  snprintf(out, PATHSZ, "%s", *rel ? rel : ".");
  return 1;
}
static int is_dev(const char *p) { return p && !strcmp(p, "/dev/null"); }
// what the run-time libraries look at; anything else elsewhere belongs to somebody
static int is_system(const char *p) {
  static const char *const ok[] = {"/proc", "/sys", "/dev", "/etc", "/usr", "/lib", "/lib64", "/opt", "/var/lib", NULL};
  if (!p || p[0] != '/') return 1;
  for (int i = 0; ok[i]; i++) {
    size_t l = strlen(ok[i]);
    if (!strncmp(p, ok[i], l) && (p[l] == '/' || p[l] == 0)) return 1;
  }
  return 0;
}

typedef int (*open_t)(const char *, int, ...);
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
  static int (*real)(int, const char *, int, ...);
  if (!real) real = dlsym(RTLD_NEXT, "openat");
  if (!LIVE) return real(dirfd, p, flags, mode);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
#ifdef O_TMPFILE
  if ((flags & O_TMPFILE) == O_TMPFILE) wr = 1;
#endif
  char rel[PATHSZ];
  int in = inside(dirfd, p, rel);
  if (!in && (is_dev(p) || (!wr && is_system(p)))) return real(dirfd, p, flags, mode);
  if (!in) snprintf(rel, sizeof rel, "!%s", p ? p : "");
  snprintf(self->path, PATHSZ, "%s", rel);
  uint32_t act = point(OP_OPEN, -1, (uint64_t)flags, (uint64_t)wr, (uint64_t)in, 0);
  if (act == ACT_ERR) { result(-1, (int)self->arg); errno = (int)self->arg; return -1; }
  if (!in && wr) { result(-1, EROFS); errno = EROFS; return -1; }   // never touch anything outside
  if (!in) { result(-1, ENOENT); errno = ENOENT; return -1; }
  inshim++;
  int fd = real(dirfd, p, flags, mode);
  int e = errno;
  if (fd >= 0 && fd < MAXFD) {
    __libc_free(fdpath[fd]);
    size_t l = strlen(rel) + 1;
    fdpath[fd] = __libc_malloc(l);
    memcpy(fdpath[fd], rel, l);
    fdflags[fd] = flags;
  }
  inshim--;
  result(fd, fd < 0 ? e : 0);
  errno = e;
  return fd;
}
#define MODE(flags) ({ mode_t m_ = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m_ = va_arg(ap, mode_t); va_end(ap); } m_; })
int open(const char *p, int flags, ...) { mode_t m = MODE(flags); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { mode_t m = MODE(flags); return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { mode_t m = MODE(flags); return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { mode_t m = MODE(flags); return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  if (G && fd >= 0 && fd < MAXFD && fdpath[fd]) { __libc_free(fdpath[fd]); fdpath[fd] = NULL; }
  long r = raw3(SYS_close, fd, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}

// a second descriptor of the same file
static int dup_path(int from, int to) {
  if (G && to >= 0 && to < MAXFD && from >= 0 && from < MAXFD && from != to) {
    inshim++;
    __libc_free(fdpath[to]);
    fdpath[to] = NULL;
    if (fdpath[from]) {
      size_t l = strlen(fdpath[from]) + 1;
      fdpath[to] = __libc_malloc(l);
      memcpy(fdpath[to], fdpath[from], l);
      fdflags[to] = fdflags[from];
    }
    inshim--;
  }
  return to;
}
static int do_fcntl(int fd, int cmd, long arg) {
  long r = raw3(SYS_fcntl, fd, cmd, arg);
  if (r < 0) { errno = (int)-r; return -1; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dup_path(fd, (int)r);
  return (int)r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int dup(int fd) { long r = raw3(SYS_dup, fd, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return dup_path(fd, (int)r); }

static ssize_t raw_rw(long n, int fd, const void *b, size_t len) {
  long r = raw3(n, fd, (long)b, (long)len);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
static ssize_t do_read(int fd, void *b, size_t n, int positional, off_t off) {
  if (LIVE && fd == 0) {
    uint32_t act = point(OP_STDIN, 0, n, 0, 0, 0);
    if (act == ACT_ERR) { errno = (int)self->arg; return -1; }
    size_t k = self->arg; if (k > n) k = n;
    memcpy(b, self->buf, k);
    return (ssize_t)k;
  }
  if (LIVE && fd > 2 && fd < MAXFD && fdpath[fd]) {
    snprintf(self->path, PATHSZ, "%s", fdpath[fd]);
    // where the file is read: what was seen may be read again after seeking
    long at = positional ? (long)off : raw3(SYS_lseek, fd, 0, SEEK_CUR);
    uint32_t act = point(OP_READ, fd, n, (uint64_t)positional, (uint64_t)(at < 0 ? 0 : at), 0);
    if (act == ACT_ERR) { self->rlen = 0; result(-1, (int)self->arg); errno = (int)self->arg; return -1; }
    size_t k = n > BUFSZ ? BUFSZ : n;
    if (act == ACT_LIMIT && self->arg < k) k = self->arg;
    ssize_t r = positional ? (ssize_t)({ long q = syscall(SYS_pread64, fd, b, k, off); q; }) : raw_rw(SYS_read, fd, b, k);
    int e = errno;
    self->rlen = 0;
    if (r > 0) { memcpy(self->rbuf, b, (size_t)r); self->rlen = (uint32_t)r; }
    result(r, r < 0 ? e : 0);
    errno = e;
    return r;
  }
  if (positional) return syscall(SYS_pread64, fd, b, n, off);
  return raw_rw(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, 1, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, 1, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (LIVE && (fd == 0 || (fd > 2 && fd < MAXFD && fdpath[fd]))) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
  }
  return syscall(SYS_readv, fd, v, c);
}

static ssize_t do_write(int fd, const void *b, size_t n, int positional, off_t off) {
  if (LIVE && (fd == 1 || fd == 2)) {
    size_t k = n > BUFSZ ? BUFSZ : n;
    memcpy(self->buf, b, k); self->buflen = (uint32_t)k;
    uint32_t act = point(fd == 1 ? OP_STDOUT : OP_STDERR, fd, n, 0, 0, 0);
    if (act == ACT_ERR) { errno = (int)self->arg; return -1; }
    if (act == ACT_LIMIT && self->arg < k) k = self->arg;
    return (ssize_t)k;
  }
  if (LIVE && fd > 2 && fd < MAXFD && fdpath[fd]) {
    snprintf(self->path, PATHSZ, "%s", fdpath[fd]);
    uint32_t act = point(OP_WRITE, fd, n, (uint64_t)positional, (uint64_t)off, 0);
    if (act == ACT_ERR) { result(-1, (int)self->arg); errno = (int)self->arg; return -1; }
    size_t k = n;
    if (act == ACT_LIMIT && self->arg < k) k = self->arg;
    ssize_t r = positional ? syscall(SYS_pwrite64, fd, b, k, off) : raw_rw(SYS_write, fd, b, k);
    int e = errno;
    result(r, r < 0 ? e : 0);
    errno = e;
    if (self->arg2 == 1) raw3(SYS_exit_group, 137, 0, 0);       // crash right after the write
    return r;
  }
  if (G && fd > 2) G->dirty = 1;       // eventfd wake-up
  if (positional) return syscall(SYS_pwrite64, fd, b, n, off);
  return raw_rw(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (LIVE && (fd == 1 || fd == 2 || (fd > 2 && fd < MAXFD && fdpath[fd]))) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
  }
  if (G && fd > 2) G->dirty = 1;
  return syscall(SYS_writev, fd, v, c);
}

// ---------------------------------------------------------------- directories
#define MAXDIR 64
struct dir { DIR *d; struct dirent64 *e; size_t n, i; char path[PATHSZ]; int fail_at, fail_err, started; };
static struct dir dirs[MAXDIR];
static int cmp_de(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }

static DIR *track_dir(DIR *d, const char *rel) {
  static struct dirent64 *(*rd)(DIR *);
  if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
  struct dir *t = NULL;
  for (int i = 0; i < MAXDIR; i++) if (!dirs[i].d) { t = &dirs[i]; break; }
  if (!t) return d;
  memset(t, 0, sizeof *t);
  t->d = d;
  snprintf(t->path, PATHSZ, "%s", rel);
  (void)rd;
  return d;
}
// the listing is taken when the first entry is asked for, in an order chosen by the driver
static void fill_dir(struct dir *t, uint64_t seed) {
  static struct dirent64 *(*rd)(DIR *);
  if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
  size_t cap = 0;
  struct dirent64 *e;
  while ((e = rd(t->d))) {
    if (t->n == cap) { cap = cap ? cap * 2 : 16; t->e = __libc_realloc(t->e, cap * sizeof *t->e); }
    memset(&t->e[t->n], 0, sizeof *e);
    size_t l = e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e;
    memcpy(&t->e[t->n], e, l);
    t->e[t->n].d_reclen = sizeof *e;
    t->n++;
  }
  if (t->n) qsort(t->e, t->n, sizeof *t->e, cmp_de);
  for (size_t i = t->n; i > 1; i--) {
    seed += 0x9e3779b97f4a7c15ull;
    uint64_t z = seed;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31;
    size_t j = z % i;
    struct dirent64 tmp = t->e[i - 1]; t->e[i - 1] = t->e[j]; t->e[j] = tmp;
  }
}
DIR *opendir(const char *p) {
  static DIR *(*real)(const char *);
  if (!real) real = dlsym(RTLD_NEXT, "opendir");
  char rel[PATHSZ];
  int in = LIVE && inside(AT_FDCWD, p, rel);
  if (!LIVE || (!in && is_system(p))) return real(p);
  if (!in) snprintf(rel, sizeof rel, "!%s", p);
  snprintf(self->path, PATHSZ, "%s", rel);
  uint32_t act = point(OP_OPENDIR, -1, 0, 0, 0, 0);
  if (act == ACT_ERR) { result(-1, (int)self->arg); errno = (int)self->arg; return NULL; }
  if (!in) { result(-1, ENOENT); errno = ENOENT; return NULL; }
  inshim++;
  DIR *d = real(p);
  int e = errno;
  if (d) d = track_dir(d, rel);
  inshim--;
  result(d ? 0 : -1, d ? 0 : e);
  errno = e;
  return d;
}
DIR *fdopendir(int fd) {
  static DIR *(*real)(int);
  if (!real) real = dlsym(RTLD_NEXT, "fdopendir");
  if (!LIVE || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real(fd);
  inshim++;
  DIR *d = real(fd);
  if (d) d = track_dir(d, fdpath[fd]);
  inshim--;
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  static struct dirent64 *(*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "readdir64");
  if (!LIVE) return real(d);
  struct dir *t = NULL;
  for (int i = 0; i < MAXDIR; i++) if (dirs[i].d == d) { t = &dirs[i]; break; }
  if (!t) return real(d);
  if (!t->started) {
    snprintf(self->path, PATHSZ, "%s", t->path);
    uint32_t act = point(OP_READDIR, -1, 0, 0, 0, 0);
    t->started = 1;
    inshim++;
    fill_dir(t, self->arg2);
    inshim--;
    t->fail_at = act == ACT_ERR ? (int)(self->arg >> 16) : -1;
    t->fail_err = (int)(self->arg & 0xffff);
    if (t->fail_at >= 0 && (size_t)t->fail_at > t->n) t->fail_at = (int)t->n;
    result((int64_t)t->n, 0);
  }
  if (t->fail_at >= 0 && t->i == (size_t)t->fail_at) { t->i = t->n; t->fail_at = -1; errno = t->fail_err; return NULL; }
  if (t->i < t->n) return &t->e[t->i++];
  return NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  static int (*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "closedir");
  for (int i = 0; i < MAXDIR; i++) if (G && dirs[i].d == d) { __libc_free(dirs[i].e); dirs[i].e = NULL; dirs[i].d = NULL; }
  return real(d);
}

// ---------------------------------------------------------------- metadata
static int stat_point(int dirfd, const char *p) {
  char rel[PATHSZ];
  if (!LIVE || !inside(dirfd, p, rel)) return 0;
  snprintf(self->path, PATHSZ, "%s", rel);
  if (point(OP_STAT, -1, 0, 0, 0, 0) == ACT_ERR) { errno = (int)self->arg; return -1; }
  return 0;
}
int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict st) {
  if (stat_point(d, p)) return -1;
  return (int)syscall(SYS_statx, d, p, fl, m, st);
}
#define STATLIKE(name, T) int name(const char *restrict p, T *restrict s) { static int (*real)(const char *, T *); \
  if (!real) real = dlsym(RTLD_NEXT, #name); if (stat_point(AT_FDCWD, p)) return -1; return real(p, s); }
STATLIKE(stat, struct stat) STATLIKE(lstat, struct stat) STATLIKE(stat64, struct stat64) STATLIKE(lstat64, struct stat64)
int access(const char *p, int m) { if (stat_point(AT_FDCWD, p)) return -1; return (int)syscall(SYS_faccessat, AT_FDCWD, p, m, 0); }

// ---------------------------------------------------------------- everything that modifies the file system
static int mutate(const char *what, int dirfd, const char *p) {
  char rel[PATHSZ];
  int in = inside(dirfd, p, rel);
  if (!in) snprintf(rel, sizeof rel, "!%s", p ? p : "");
  snprintf(self->path, PATHSZ, "%s %s", what, rel);
  uint32_t act = point(OP_MUTATE, -1, (uint64_t)in, 0, 0, 0);
  if (act == ACT_ERR) { errno = (int)self->arg; return -1; }
  if (!in) { errno = EROFS; return -1; }
  return 0;
}
#define MUT1(name, args, dirfd, path, call) int name args { if (LIVE) { if (mutate(#name, dirfd, path)) return -1; } return (int)(call); }
MUT1(unlink, (const char *p), AT_FDCWD, p, syscall(SYS_unlink, p))
MUT1(unlinkat, (int d, const char *p, int f), d, p, syscall(SYS_unlinkat, d, p, f))
MUT1(rmdir, (const char *p), AT_FDCWD, p, syscall(SYS_rmdir, p))
MUT1(mkdir, (const char *p, mode_t m), AT_FDCWD, p, syscall(SYS_mkdir, p, m))
MUT1(mkdirat, (int d, const char *p, mode_t m), d, p, syscall(SYS_mkdirat, d, p, m))
MUT1(chmod, (const char *p, mode_t m), AT_FDCWD, p, syscall(SYS_chmod, p, m))
MUT1(fchmodat, (int d, const char *p, mode_t m, int f), d, p, syscall(SYS_fchmodat, d, p, m, f))
MUT1(chown, (const char *p, uid_t u, gid_t g), AT_FDCWD, p, syscall(SYS_chown, p, u, g))
MUT1(lchown, (const char *p, uid_t u, gid_t g), AT_FDCWD, p, syscall(SYS_lchown, p, u, g))
MUT1(truncate, (const char *p, off_t l), AT_FDCWD, p, syscall(SYS_truncate, p, l))
MUT1(truncate64, (const char *p, off_t l), AT_FDCWD, p, syscall(SYS_truncate, p, l))
MUT1(utimensat, (int d, const char *p, const struct timespec t[2], int f), d, p, syscall(SYS_utimensat, d, p, t, f))
MUT1(mknod, (const char *p, mode_t m, dev_t v), AT_FDCWD, p, syscall(SYS_mknod, p, m, v))
MUT1(mkfifo, (const char *p, mode_t m), AT_FDCWD, p, syscall(SYS_mknod, p, m | S_IFIFO, 0))
MUT1(symlink, (const char *t, const char *p), AT_FDCWD, p, syscall(SYS_symlink, t, p))
MUT1(symlinkat, (const char *t, int d, const char *p), d, p, syscall(SYS_symlinkat, t, d, p))
#define MUT2(name, args, d1, p1, d2, p2, call) int name args { if (LIVE) { if (mutate(#name, d1, p1)) return -1; if (mutate(#name, d2, p2)) return -1; } return (int)(call); }
MUT2(rename, (const char *a, const char *b), AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_rename, a, b))
MUT2(renameat, (int x, const char *a, int y, const char *b), x, a, y, b, syscall(SYS_renameat, x, a, y, b))
MUT2(renameat2, (int x, const char *a, int y, const char *b, unsigned f), x, a, y, b, syscall(SYS_renameat2, x, a, y, b, f))
MUT2(link, (const char *a, const char *b), AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_link, a, b))
MUT2(linkat, (int x, const char *a, int y, const char *b, int f), x, a, y, b, syscall(SYS_linkat, x, a, y, b, f))
// leaving the process: recorded and refused
static int escape(const char *what, const char *p) {
  snprintf(self->path, PATHSZ, "escape:%s %s", what, p ? p : "");
  point(OP_MUTATE, -1, 0, 0, 0, 0);
  return EPERM;
}
#define ESC(name, what, args, path, call) int name args { if (LIVE) { errno = escape(what, path); return -1; } return (int)(call); }
ESC(socket, "socket", (int d, int t, int p), NULL, syscall(SYS_socket, d, t, p))
ESC(execve, "exec", (const char *p, char *const a[], char *const e[]), p, syscall(SYS_execve, p, a, e))
ESC(execvp, "exec", (const char *p, char *const a[]), p, -1)
ESC(fork, "fork", (void), NULL, -1)
int posix_spawnp(pid_t *pid, const char *f, const void *fa, const void *at, char *const a[], char *const e[]) { return LIVE ? escape("spawn", f) : ENOSYS; }
int posix_spawn(pid_t *pid, const char *f, const void *fa, const void *at, char *const a[], char *const e[]) { return LIVE ? escape("spawn", f) : ENOSYS; }
static int mutate_fd(const char *what, int fd) {
  if (!LIVE) return 0;
  snprintf(self->path, PATHSZ, "%s %s", what, fd >= 0 && fd < MAXFD && fdpath[fd] ? fdpath[fd] : "?");
  if (point(OP_MUTATE, fd, 1, 0, 0, 0) == ACT_ERR) { errno = (int)self->arg; return -1; }
  return 0;
}
int ftruncate(int fd, off_t l) { if (mutate_fd("ftruncate", fd)) return -1; return (int)syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off_t l) { if (mutate_fd("ftruncate", fd)) return -1; return (int)syscall(SYS_ftruncate, fd, l); }
int fchmod(int fd, mode_t m) { if (mutate_fd("fchmod", fd)) return -1; return (int)syscall(SYS_fchmod, fd, m); }

// ---------------------------------------------------------------- allocation points (preemption)
static inline void alloc_point(void) {
  struct shm *g = G;
  if (__builtin_expect(g && g->mallocs_on && self && !inshim, 0)) {
    uint64_t c = ++g->malloc_count;
    if (g->ipreempt < g->npreempt && c >= g->preempt[g->ipreempt]) {
      g->ipreempt++;
      inshim++;
      point(OP_PREEMPT, -1, c, 0, 0, 0);
      inshim--;
    }
  }
}
extern size_t malloc_usable_size(void *);
static inline void *plus(void *p) {
  struct shm *g = G;
  if (g && p) __atomic_fetch_add(&g->live, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED);
  return p;
}
static inline void minus(void *p) {
  struct shm *g = G;
  if (g && p) __atomic_fetch_sub(&g->live, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED);
}
void *malloc(size_t n) { alloc_point(); return plus(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { alloc_point(); return plus(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) {
  alloc_point();
  size_t old = p && G ? malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (G && (q || !n)) __atomic_fetch_sub(&G->live, (int64_t)old, __ATOMIC_RELAXED);
  return plus(q);
}
void free(void *p) { alloc_point(); minus(p); __libc_free(p); }
void *aligned_alloc(size_t a, size_t n) { alloc_point(); return plus(__libc_memalign(a, n)); }
void *memalign(size_t a, size_t n) { alloc_point(); return plus(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) {
  alloc_point();
  void *q = plus(__libc_memalign(a, n));
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}
