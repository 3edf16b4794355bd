#include "drv.h"
#include <unistd.h>
#include <sys/wait.h>

/* the instrumented build runs each command in a process of its own, all starting from the same memory */
void ct_start(int index) __attribute__((weak));
void ct_report(void) __attribute__((weak));

arg_t A[256];
int NA;
static const op_t *tables[64];
static int ntables;
static void (*resets[64])(void);
static int nresets;
#define MAXBUFS 8192
static unsigned char *bufs[MAXBUFS];
static size_t buflen[MAXBUFS];
static int nbufs;
static char *out;
static size_t outlen, outcap;
static unsigned long seq;

void die(const char *msg) { fprintf(stderr, "driver error: %s\n", msg); exit(3); }
void add_ops(const op_t *ops) {
  const op_t *o, *p;
  int i;
  for (i = 0; i < ntables; i++)
    for (o = tables[i]; o->name; o++)
      for (p = ops; p->name; p++)
        if (strcmp(o->name, p->name) == 0) { fprintf(stderr, "two operations %s\n", p->name); exit(3); }
  tables[ntables++] = ops;
}
void on_reset(void (*f)(void)) { resets[nresets++] = f; }

long long arg_int(int k) {
  if (k >= NA || A[k].kind != 'i') die("integer argument expected");
  return A[k].i;
}
unsigned char *arg_ptr(int k) {
  if (k >= NA || (A[k].kind != 'x' && A[k].kind != 'n')) die("bytes argument expected");
  return A[k].kind == 'n' ? NULL : A[k].p;
}
void inout(int k) { A[k].inout = 1; }

#define GUARD 32
unsigned char *obuf(size_t n) {
#ifdef __SANITIZE_ADDRESS__
  unsigned char *p = malloc(n ? n : 1);
#else
  unsigned char *p = malloc(n + GUARD);
#endif
  if (p == NULL || nbufs >= MAXBUFS) die("memory");
  memset(p, 0xa5, n ? n : 1);
#ifndef __SANITIZE_ADDRESS__
  memset(p + n, 0xc7, GUARD);
#endif
  bufs[nbufs] = p;
  buflen[nbufs++] = n;
  return p;
}
static void put(const char *s, size_t n) {
  if (outlen + n + 2 > outcap) {
    outcap = (outlen + n + 2) * 2;
    out = realloc(out, outcap);
  }
  memcpy(out + outlen, s, n);
  outlen += n;
}
static void sp(void) { if (outlen) put(" ", 1); }
void r_int(long long v) { char b[32]; sp(); put(b, sprintf(b, "%lld", v)); }
void r_u64(uint64_t v) { char b[32]; sp(); put(b, sprintf(b, "x%016llx", (unsigned long long)v)); }
void r_str(const char *s) { sp(); put(s, strlen(s)); }
void r_hex(const void *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  const unsigned char *u = p;
  size_t i;
  sp();
  put("x", 1);
  if (outlen + 2 * n + 2 > outcap) {
    outcap = (outlen + 2 * n + 2) * 2;
    out = realloc(out, outcap);
  }
  for (i = 0; i < n; i++) {
    out[outlen++] = d[u[i] >> 4];
    out[outlen++] = d[u[i] & 15];
  }
}
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void parse(char *tok) {
  arg_t *a = &A[NA++];
  memset(a, 0, sizeof(*a));
  if (tok[0] == 'x') {
    size_t n = strlen(tok + 1) / 2, i, off = seq & 7;
    a->kind = 'x';
    a->base = malloc(n + off ? n + off : 1);
    a->p = a->base + off;
    if (n == 0 && off == 0) a->p = a->base + 1;
    a->copy = malloc(n + 1);
    a->len = n;
    for (i = 0; i < n; i++) a->p[i] = hv(tok[1 + 2 * i]) << 4 | hv(tok[2 + 2 * i]);
    memcpy(a->copy, a->p, n);
  } else if (tok[0] == 'n') {
    a->kind = 'n';
  } else if (tok[0] == 's') {
    a->kind = 's';
    a->s = tok + 1;
    a->len = strlen(tok + 1);
  } else {
    a->kind = 'i';
    a->i = tok[0] == '-' ? strtoll(tok, NULL, 10) : (long long)strtoull(tok, NULL, 10);
  }
  seq++;
}
int main(void) {
  char *line = NULL;
  size_t cap = 0;
  ssize_t n;
  int i, j;
  if (ct_start) line = malloc(cap = 1 << 20);
  while ((n = getline(&line, &cap, stdin)) > 0) {
    char *save, *t;
    const op_t *op = NULL;
    if (line[n - 1] == '\n') line[--n] = 0;
    outlen = 0;
    NA = 0;
    t = strtok_r(line, " ", &save);
    if (t == NULL) die("empty line");
    if (ct_start) {
      static int index;
      int st;
      pid_t pid = fork();
      if (pid < 0) die("fork");
      if (pid > 0) {
        if (waitpid(pid, &st, 0) != pid) die("wait");
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) exit(3);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) abort();
        index++;
        continue;
      }
      ct_start(index);
    }
    if (strcmp(t, "reset") == 0) {
      seq = 0;
      for (i = 0; i < nresets; i++) resets[i]();
      r_str("ok");
    } else {
      for (i = 0; i < ntables && !op; i++)
        for (j = 0; tables[i][j].name; j++)
          if (strcmp(tables[i][j].name, t) == 0) { op = &tables[i][j]; break; }
      if (!op) { fprintf(stderr, "unknown op %s\n", t); exit(3); }
      while ((t = strtok_r(NULL, " ", &save))) {
        if (NA >= 256) die("too many arguments");
        parse(t);
      }
      op->f();
      for (i = 0; i < NA; i++) {
        if (A[i].kind == 'x') {
          if (!A[i].inout && memcmp(A[i].p, A[i].copy, A[i].len) != 0) r_str("INPUT-MODIFIED");
          free(A[i].base);
          free(A[i].copy);
        }
      }
      for (i = 0; i < nbufs; i++) {
#ifndef __SANITIZE_ADDRESS__
        for (j = 0; j < GUARD; j++)
          if (bufs[i][buflen[i] + j] != 0xc7) { r_str("OVERRUN"); break; }
#endif
        free(bufs[i]);
      }
      nbufs = 0;
    }
    if (ct_report) ct_report();
    put("\n", 1);
    for (size_t o = 0; o < outlen;) {
      ssize_t w = write(1, out + o, outlen - o);
      if (w <= 0) exit(3);
      o += w;
    }
    if (ct_start) _exit(0);
  }
  return 0;
}
