/* Randomness under a scripted operating system, and schedules over processes and threads.
 * The calls the library makes to the system are redirected here by the linker (--wrap);
 * while no script is armed they go through unchanged. */
#define _GNU_SOURCE
#include "drv.h"
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <torsion/rand.h>

/* ---------------------------------------------------------------- scripted system */

#define NQ 8   /* getrandom, open, node, poll, read, close, fcntl, sysctl */
enum { Q_G, Q_O, Q_S, Q_P, Q_R, Q_C, Q_F, Q_Y };
#define FD0 700000
#define NFD 64

static __thread int armed;                 /* 0 pass through, 1 scripted, 2 dealing only */
static const char *queue[NQ];
static char *logbuf; static size_t loglen, logcap; static int logcount;
static struct { int open, chr, statfail; mode_t mode; } fds[NFD];
static int nfd;
static const unsigned char *base; static size_t base_size;
static uint64_t *deal_ctr;                 /* shared between processes */
static uint64_t deal_seed, deal_local;
static __thread uint64_t dealt;            /* genuine bytes given to this thread */
static int hw_has, hw_rand; static uint32_t hw_val;
/* what the sources gave to this thread during one call */
#define CAP 8192
static __thread struct { unsigned char sys[CAP], hw[CAP], rd[CAP]; uint32_t nsys, nhw, nrd; } *capt;
static void capture(unsigned char *to, uint32_t *n, const void *p, size_t k) {
  if (k > CAP - *n) k = CAP - *n;
  memcpy(to + *n, p, k);
  *n += (uint32_t)k;
}

static uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static void deal(unsigned char *p, size_t n) {
  size_t i;
  uint64_t c = __sync_fetch_and_add(deal_ctr ? deal_ctr : &deal_local, n);
  for (i = 0; i < n; i++) p[i] = (unsigned char)(mix64(mix64(deal_seed) ^ (c + i)) >> 24);
  dealt += n;
  if (capt) capture(capt->sys, &capt->nsys, p, n);
}
static void lg(const char *fmt, ...) {
  va_list ap;
  int n;
  if (logcount > 4000) return;
  if (logcap - loglen < 4096) { logcap = logcap * 2 + 16384; logbuf = realloc(logbuf, logcap); }
  va_start(ap, fmt);
  n = vsnprintf(logbuf + loglen, logcap - loglen, fmt, ap);
  va_end(ap);
  loglen += n;
  logcount++;
}
static const char *hexs(const unsigned char *p, size_t n) {
  static char *b; static size_t cap; size_t i;
  if (cap < 2 * n + 1) b = realloc(b, cap = 2 * n + 1);
  for (i = 0; i < n; i++) sprintf(b + 2 * i, "%02x", p[i]);
  b[2 * n] = 0;
  return n ? b : "-";
}
/* next outcome of a queue; "" when exhausted */
static const char *next(int q) {
  static char t[16];
  int n = 0;
  if (!queue[q] || !*queue[q]) return "";
  while (*queue[q] && *queue[q] != ',' && n < 15) t[n++] = *queue[q]++;
  t[n] = 0;
  if (*queue[q] == ',') queue[q]++;
  return t;
}
static int err(const char *t) {
  switch (t[0]) {
    case 'i': return EINTR;
    case 'a': return EAGAIN;
    case 'n': return ENOSYS;
    case 'm': return ENOENT;
    case 'v': return EINVAL;
    case 'p': return EPERM;
    case 'e': return EIO;
  }
  return 0;
}
static const char *ename(int e) {
  switch (e) { case EINTR: return "EINTR"; case EAGAIN: return "EAGAIN"; case ENOSYS: return "ENOSYS"; case ENOENT: return "ENOENT";
    case EINVAL: return "EINVAL"; case EPERM: return "EPERM"; case EIO: return "EIO"; }
  return "OTHER";
}
static void logdata(const char *kind, const char *who, const unsigned char *p, size_t len, long n, int e) {
  if (!base) { base = p; base_size = 0; }
  if (n > 0) {
    size_t sz = (size_t)n * 2 + 200;
    if (logcap - loglen < sz) { logcap = loglen + sz + 16384; logbuf = realloc(logbuf, logcap); }
    loglen += sprintf(logbuf + loglen, "%s %s %ld %lu %ld %s ", kind, who, (long)(p - base), (unsigned long)len, n, hexs(p, n));
    logcount++;
  } else
    lg("%s %s %ld %lu %ld %s ", kind, who, (long)(p - base), (unsigned long)len, n, n < 0 ? ename(e) : "-");
}
/* result of a read-like call */
static long rd(int q, const char *kind, const char *who, int chr, unsigned char *p, size_t len) {
  const char *t = next(q);
  long n;
  int e = err(t);
  if (e) { logdata(kind, who, p, len, -1, e); errno = e; return -1; }
  if (t[0] == '0') { logdata(kind, who, p, len, 0, 0); return 0; }
  n = (long)len;
  if (t[0] == 's') { long k = atol(t + 1); if (k < n) n = k; if (n < 1) n = 1; if ((size_t)n > len) n = (long)len; }
  if (chr) deal(p, n); else memset(p, 0x33, n);
  logdata(kind, who, p, len, n, 0);
  return n;
}

long __real_syscall(long n, long a, long b, long c, long d, long e, long f);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (armed && n == SYS_getrandom) {
    if (armed == 2) { deal((unsigned char *)a, (size_t)b); return b; }
    return rd(Q_G, "g", "-", 1, (unsigned char *)a, (size_t)b);
  }
  if (armed == 1) {
    const char *t = "n";
    int er;
#ifdef SYS__sysctl
    if (n == SYS__sysctl) {
      struct { int *name; int nlen; void *oldval; size_t *oldlenp; } *ar = (void *)a;
      t = next(Q_Y);
      if (t[0] == 'u') {
        deal(ar->oldval, 16);
        *ar->oldlenp = t[1] == 's' ? 8 : 16;
        lg("y - 0 16 %lu %s ", (unsigned long)*ar->oldlenp, hexs(ar->oldval, *ar->oldlenp));
        return 0;
      }
    }
#endif
    er = err(t) ? err(t) : ENOSYS;
    lg("y - 0 0 -1 %s ", ename(er));
    errno = er;
    return -1;
  }
  return __real_syscall(n, a, b, c, d, e, f);
}
ssize_t __real_getrandom(void *p, size_t n, unsigned fl);
ssize_t __wrap_getrandom(void *p, size_t n, unsigned fl) {
  if (!armed) return __real_getrandom(p, n, fl);
  return __wrap_syscall(SYS_getrandom, (long)p, (long)n, fl, 0, 0, 0);
}
int __real_getentropy(void *p, size_t n);
int __wrap_getentropy(void *p, size_t n) {
  long r;
  if (!armed) return __real_getentropy(p, n);
  r = __wrap_syscall(SYS_getrandom, (long)p, (long)n, 0, 0, 0, 0);
  return r == (long)n ? 0 : -1;
}
int __real_open(const char *name, int fl, int mode);
int __wrap_open(const char *name, int fl, int mode) {
  const char *who, *t;
  int e, k;
  if (armed != 1) return __real_open(name, fl, mode);
  who = !strcmp(name, "/dev/urandom") ? "u" : !strcmp(name, "/dev/random") ? "r" : "x";
  t = next(Q_O);
  e = err(t);
  if (e == EINVAL && !(fl & O_CLOEXEC)) e = 0;
  if (!e && nfd >= NFD) e = EIO;
  if (e) { lg("o %s %d 0 -1 %s ", who, !!(fl & O_CLOEXEC), ename(e)); errno = e; return -1; }
  k = nfd++;
  t = next(Q_S);
  fds[k].open = 1;
  fds[k].statfail = t[0] == 'e';
  fds[k].mode = t[0] == 'f' ? S_IFREG : t[0] == 'd' ? S_IFDIR : t[0] == 'b' ? S_IFBLK : t[0] == 'p' ? S_IFIFO : t[0] == 'k' ? S_IFSOCK : S_IFCHR;
  fds[k].chr = fds[k].mode == S_IFCHR && who[0] != 'x';
  lg("o %s %d 0 %d %s ", who, !!(fl & O_CLOEXEC), k, fds[k].chr ? "chr" : "other");
  return FD0 + k;
}
int __wrap_open64(const char *name, int fl, int mode) { return __wrap_open(name, fl, mode); }
#define MINE(fd) (armed == 1 && (fd) >= FD0 && (fd) < FD0 + nfd)
int __real_fstat(int fd, struct stat *st);
int __wrap_fstat(int fd, struct stat *st) {
  int k = fd - FD0;
  if (!MINE(fd)) return __real_fstat(fd, st);
  if (fds[k].statfail) { lg("s %d 0 0 -1 EIO ", k); errno = EIO; return -1; }
  memset(st, 0, sizeof(*st));
  st->st_mode = fds[k].mode | 0666;
  lg("s %d 0 0 0 %s ", k, fds[k].mode == S_IFCHR ? "chr" : "other");
  return 0;
}
int __wrap_fstat64(int fd, struct stat *st) { return __wrap_fstat(fd, st); }
int __real_poll(struct pollfd *p, nfds_t n, int timeout);
int __wrap_poll(struct pollfd *p, nfds_t n, int timeout) {
  const char *t;
  int e;
  if (armed != 1) return __real_poll(p, n, timeout);
  t = next(Q_P);
  e = err(t);
  if (e) { lg("p %d 0 0 -1 %s ", p->fd - FD0, ename(e)); errno = e; return -1; }
  if (t[0] == '0') { lg("p %d 0 0 0 - ", p->fd - FD0); return 0; }
  p->revents = POLLIN;
  lg("p %d 0 0 1 - ", p->fd - FD0);
  return 1;
}
int __real_fcntl(int fd, int cmd, long arg);
int __wrap_fcntl(int fd, int cmd, long arg) {
  const char *t;
  if (!MINE(fd)) return __real_fcntl(fd, cmd, arg);
  t = next(Q_F);
  if (err(t)) { lg("f %d 0 0 -1 %s ", fd - FD0, ename(err(t))); errno = err(t); return -1; }
  lg("f %d 0 0 0 - ", fd - FD0);
  return 0;
}
int __wrap_fcntl64(int fd, int cmd, long arg) { return __wrap_fcntl(fd, cmd, arg); }
ssize_t __real_read(int fd, void *p, size_t n);
ssize_t __wrap_read(int fd, void *p, size_t n) {
  char who[16];
  if (!MINE(fd)) return __real_read(fd, p, n);
  sprintf(who, "%d", fd - FD0);
  if (!fds[fd - FD0].open) { lg("r %s 0 0 -1 OTHER ", who); errno = EBADF; return -1; }
  return rd(Q_R, "r", who, fds[fd - FD0].chr, p, n);
}
int __real_close(int fd);
int __wrap_close(int fd) {
  const char *t;
  int e;
  if (armed != 1 || fd < FD0) {
    if (armed == 1) { lg("c -1 0 0 -1 OTHER "); errno = EBADF; return -1; }
    return __real_close(fd);
  }
  t = next(Q_C);
  e = fds[fd - FD0].open ? err(t) : EBADF;
  lg("c %d 0 0 %d %s ", fd - FD0, e ? -1 : 0, e ? ename(e) : "-");
  fds[fd - FD0].open = 0;
  if (e) { errno = e; return -1; }
  return 0;
}
int __real_torsion__has_rdrand(void);
int __wrap_torsion__has_rdrand(void) { return armed ? hw_has : __real_torsion__has_rdrand(); }
uint32_t __real_torsion__rdrand32(void);
uint32_t __wrap_torsion__rdrand32(void) {
  if (!armed) return __real_torsion__rdrand32();
  hw_val = hw_val * 1664525u + 1013904223u;
  if (capt) capture(capt->rd, &capt->nrd, &hw_val, 4);
  return hw_val;
}
int __real_torsion__hwrand(void *p, size_t n);
int __wrap_torsion__hwrand(void *p, size_t n) {
  size_t i;
  if (!armed) return __real_torsion__hwrand(p, n);
  if (!hw_rand) { memset(p, 0, n); return 0; }
  for (i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)(i * 7 + 1);
  if (capt) capture(capt->hw, &capt->nhw, p, n);
  return 1;
}

/* one call of the public interface under the script; buffers are poisoned first */
static const char *api;
static size_t req;
static unsigned char *dst;
static void one_call(int k) {
  int ret = -1, e;
  memset(dst, 0xa5, req + 1);
  base = NULL;
  if (!strcmp(api, "entropy")) base = dst;
  errno = E2BIG;
  armed = 1;
  if (!strcmp(api, "entropy")) ret = torsion_getentropy(dst, req);
  else if (!strcmp(api, "bytes")) ret = torsion_getrandom(dst, req);
  else if (!strcmp(api, "word")) { uint32_t x; memset(&x, 0xa5, 4); ret = torsion_random(&x); memcpy(dst, &x, 4); }
  else { uint32_t x; memset(&x, 0xa5, 4); ret = torsion_uniform(&x, 1000003); memcpy(dst, &x, 4); }
  armed = 0;
  e = errno;
  {
    size_t sz = 2 * req + 200;
    if (logcap - loglen < sz) { logcap = loglen + sz + 16384; logbuf = realloc(logbuf, logcap); }
    loglen += sprintf(logbuf + loglen, "R %s %d %lu %d %s ", dst[req] == 0xa5 ? "ok" : "over", e == E2BIG, (unsigned long)req, ret, hexs(dst, req));
  }
  (void)k;
}
static void *runner(void *arg) {
  int k, n = *(int *)arg;
  for (k = 0; k < n; k++) one_call(k);
  return NULL;
}
/* en_run api size seed calls hw g o s p r c f y: calls made in a new thread, hence with an unseeded generator */
static void en_run(void) {
  pthread_t th;
  int i, n = (int)I(3);
  char *save;
  api = S(0);
  req = !strcmp(api, "word") || !strcmp(api, "uniform") ? 4 : (size_t)I(1);
  deal_seed = (uint64_t)I(2);
  deal_local = 0;
  hw_has = hw_rand = (int)I(4);
  hw_val = 1;
  dst = obuf(req + 1);
  for (i = 0; i < NQ; i++) queue[i] = strcmp(S(5 + i), "-") ? S(5 + i) : "";
  loglen = 0; logcount = 0; nfd = 0;
  memset(fds, 0, sizeof(fds));
  if (!logbuf) { logcap = 65536; logbuf = malloc(logcap); }
  logbuf[0] = 0;
  if (pthread_create(&th, NULL, runner, &n)) die("pthread_create");
  pthread_join(th, NULL);
  for (save = strtok(logbuf, " "); save; save = strtok(NULL, " ")) r_str(save);
}

/* ---------------------------------------------------------------- processes and threads */

#define NACT 16
enum { C_QUIT, C_FORK, C_THREAD, C_BYTES, C_WORDS, C_UNIFORM, C_ENTROPY };
typedef struct mail {
  sem_t go, done;
  int cmd, b2; uint32_t a, b;
  int ret; uint64_t dealt; long pid;
  uint32_t len;
  uint32_t nsys, nhw, nrd;
  struct look { uint32_t runs, ntls; unsigned char *tls; } lk;
  unsigned char tls[1 << 14];
  unsigned char sys[CAP], hw[CAP], rd[CAP];
  unsigned char out[1 << 17];
} mail_t;
static struct shared { uint64_t ctr; mail_t m[NACT]; } *sh;
static pid_t root;

/* words given to this thread: how many runs of two the program's static storage still holds; and an image
 * of the thread's own variables */
#define NGIVEN (1 << 16)
#define NTLS (1 << 14)
static __thread uint32_t *given, ngiven;
static int cmp32(const void *a, const void *b) { uint32_t x = *(const uint32_t *)a, y = *(const uint32_t *)b; return x < y ? -1 : x > y; }
__attribute__((no_sanitize("address"))) static int scan(struct dl_phdr_info *i, size_t size, void *arg) {
  struct look *lk = arg;
  int k;
  (void)size;
  for (k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *h = &i->dlpi_phdr[k];
    size_t j;
    if (h->p_type == PT_TLS) {
      const unsigned char *p = i->dlpi_tls_data;
      for (j = 0; j < h->p_memsz && j < NTLS; j++) lk->tls[j] = p[j];
      lk->ntls = (uint32_t)j & ~3u;
    } else if (h->p_type == PT_LOAD && (h->p_flags & PF_W)) {
      const unsigned char *p = (const unsigned char *)(i->dlpi_addr + h->p_vaddr);
      int last = 0;
      for (j = 0; j + 4 <= h->p_memsz; j += 4) {
        uint32_t x = *(const uint32_t *)(p + j);
        int hit = x > 0xffff && bsearch(&x, given, ngiven, 4, cmp32);
        if (hit && last) lk->runs++;
        last = hit;
      }
    }
  }
  return 1;                                /* only the program itself */
}
static void look(struct look *lk, const unsigned char *p, size_t n, int be) {
  if (!given) given = malloc(4 * NGIVEN);
  for (; n >= 4 && ngiven < NGIVEN; p += 4, n -= 4) {
    uint32_t x;
    memcpy(&x, p, 4);
    if (be) x = __builtin_bswap32(x);
    if (x > 0xffff) given[ngiven++] = x;
  }
  qsort(given, ngiven, 4, cmp32);
  dl_iterate_phdr(scan, lk);
}

static void actor(int me);
static void *actor_thread(void *a) { sem_post(&sh->m[(intptr_t)a].done); actor((int)(intptr_t)a); return NULL; }
static void actor(int me) {
  mail_t *m = &sh->m[me];
  for (;;) {
    uint64_t d0;
    uint32_t i;
    while (sem_wait(&m->go)) ;
    d0 = dealt;
    if (!capt) capt = calloc(1, sizeof(*capt));
    capt->nsys = capt->nhw = capt->nrd = 0;
    m->ret = 1; m->len = 0; m->pid = (long)getpid();
    switch (m->cmd) {
      case C_QUIT: _exit(0);
      case C_FORK: {
        pid_t p;
        p = fork();
        if (p == 0) { int j = (int)m->a; prctl(PR_SET_PDEATHSIG, SIGKILL); sem_post(&sh->m[j].done); dealt = 0; actor(j); _exit(0); }
        m->ret = p > 0;
        break;
      }
      case C_THREAD: {
        pthread_t t;
        m->ret = pthread_create(&t, NULL, actor_thread, (void *)(intptr_t)m->a) == 0;
        if (m->ret) pthread_detach(t);
        break;
      }
      case C_BYTES: m->len = m->a; memset(m->out, 0xa5, m->len); armed = 2; m->ret = torsion_getrandom(m->out, m->a); armed = 0; break;
      case C_ENTROPY: m->len = m->a; memset(m->out, 0xa5, m->len); armed = 2; m->ret = torsion_getentropy(m->out, m->a); armed = 0; break;
      case C_WORDS: case C_UNIFORM:
        armed = 2;
        for (i = 0; i < m->a; i++) {
          uint32_t x = 0;
          m->ret &= m->cmd == C_WORDS ? torsion_random(&x) : torsion_uniform(&x, m->b);
          m->out[4 * i] = x >> 24; m->out[4 * i + 1] = x >> 16; m->out[4 * i + 2] = x >> 8; m->out[4 * i + 3] = x;
        }
        armed = 0;
        m->len = 4 * m->a;
        break;
    }
    m->dealt = dealt - d0;
    memcpy(m->sys, capt->sys, m->nsys = capt->nsys); memcpy(m->hw, capt->hw, m->nhw = capt->nhw); memcpy(m->rd, capt->rd, m->nrd = capt->nrd);
    m->lk.runs = m->lk.ntls = 0;
    m->lk.tls = m->tls;
    if (m->b2) look(&m->lk, m->out, m->cmd == C_UNIFORM ? 0 : m->len, m->cmd == C_WORDS);
    sem_post(&m->done);
  }
}
static int wait_done(mail_t *m) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_sec += 20;
  while (sem_timedwait(&m->done, &ts)) if (errno != EINTR) return 0;
  return 1;
}
static void rg_kill(void) {
  int i;
  if (!sh) return;
  if (root > 0) {
    for (i = NACT - 1; i >= 0; i--) { sh->m[i].cmd = C_QUIT; sem_post(&sh->m[i].go); }
    waitpid(root, NULL, 0);
    root = 0;
  }
  munmap(sh, sizeof(*sh));
  sh = NULL;
  deal_ctr = NULL;
}
/* rg_start seed hw: a new process with one actor, number 0 */
static void rg_start(void) {
  int i;
  rg_kill();
  sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) die("mmap");
  for (i = 0; i < NACT; i++) { sem_init(&sh->m[i].go, 1, 0); sem_init(&sh->m[i].done, 1, 0); }
  deal_ctr = &sh->ctr;
  deal_seed = (uint64_t)I(0);
  hw_has = (int)I(1) & 1; hw_rand = ((int)I(1) >> 1) & 1; hw_val = 1;
  fflush(stdout);
  root = fork();
  if (root == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dealt = 0; actor(0); _exit(0); }
  if (root < 0) die("fork");
  r_str("ok");
}
static int looking;
static mail_t *post(int cmd, int a, int b) {
  mail_t *m = &sh->m[I(0)];
  m->b2 = looking;
  m->cmd = cmd; m->a = (uint32_t)a; m->b = (uint32_t)b;
  sem_post(&m->go);
  if (!wait_done(m)) { r_str("HANG"); return NULL; }
  return m;
}
static void rg_fork(void) {
  mail_t *m = post(C_FORK, (int)I(1), 0);
  if (!m) return;
  if (!m->ret || !wait_done(&sh->m[I(1)])) { r_str("HANG"); return; }
  r_str("ok");
}
static void rg_thread(void) { mail_t *m = post(C_THREAD, (int)I(1), 0); if (m) r_str(m->ret && wait_done(&sh->m[I(1)]) ? "ok" : "HANG"); }
static void outp(mail_t *m) {
  if (!m) return;
  r_int(m->ret); r_int((long long)m->dealt); r_hex(m->out, m->len);
}
static void rg_bytes(void) { outp(post(C_BYTES, (int)I(1), 0)); }
static void rg_entropy(void) { outp(post(C_ENTROPY, (int)I(1), 0)); }
static void rg_words(void) { outp(post(C_WORDS, (int)I(1), 0)); }
static void rg_uniform(void) { const unsigned char *p = P(2); outp(post(C_UNIFORM, (int)I(1), (int)((uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]))); }
/* the same calls with what the sources gave during the call runs of words given
 * out that are still stored, and an image of the thread's variables */
static void outx(mail_t *m) {
  if (!m) return;
  r_int(m->ret); r_hex(m->sys, m->nsys); r_hex(m->hw, m->nhw); r_hex(m->rd, m->nrd); r_int(m->lk.runs); r_hex(m->out, m->len); r_hex(m->tls, m->lk.ntls);
}
static void gn_bytes(void) { looking = 1; outx(post(C_BYTES, (int)I(1), 0)); looking = 0; }
static void gn_words(void) { looking = 1; outx(post(C_WORDS, (int)I(1), 0)); looking = 0; }
static void gn_uniform(void) {
  const unsigned char *p = P(2);
  looking = 1;
  outx(post(C_UNIFORM, (int)I(1), (int)((uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3])));
  looking = 0;
}
static void rg_stop(void) { rg_kill(); r_str("ok"); }

TABLE(ops) = {
  {"en_run", en_run}, {"rg_start", rg_start}, {"rg_fork", rg_fork}, {"rg_thread", rg_thread}, {"rg_bytes", rg_bytes},
  {"rg_entropy", rg_entropy}, {"rg_words", rg_words}, {"rg_uniform", rg_uniform}, {"rg_stop", rg_stop}, {"gn_bytes", gn_bytes}, {"gn_words", gn_words}, {"gn_uniform", gn_uniform}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); on_reset(rg_kill); atexit(rg_kill); }
