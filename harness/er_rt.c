#define _GNU_SOURCE
/* Observer of what an operation gives back to the allocator: between ct_on and ct_off every block given
   back is searched for the arguments of the call, and every block that grows is moved. */
#include "drv.h"
#include "ct.h"
#include "er.h"
#include <malloc.h>

#define WIN 16                       /* length of the pieces looked for */
#define MAXPART 64
static struct part { int arg; const unsigned char *p; size_t n; unsigned found; } part[MAXPART];
static int np, on;
static unsigned blocks;

static void add(int arg, const unsigned char *p, size_t n) {
  if (n < WIN || np == MAXPART) return;
  part[np].arg = arg; part[np].p = p; part[np].n = n; part[np].found = 0;
  np++;
}
void er_secret(const unsigned char *p, size_t n) { add(98, p, n); }
/* pieces that are not nearly constant */
static int plain(const unsigned char *w) {
  int i, d = 0; unsigned char s[256] = {0};
  for (i = 0; i < WIN; i++) if (!s[w[i]]) { s[w[i]] = 1; d++; }
  return d >= 8;
}
/* in the order of the bytes and in the opposite order */
static void search(const unsigned char *lo, const unsigned char *hi) {
  int k;
  for (k = 0; k < np; k++) {
    size_t o;
    for (o = 0; o + WIN <= part[k].n; o += 4) {
      unsigned char rev[WIN]; int i;
      const unsigned char *w = part[k].p + o;
      if (!plain(w)) continue;
      for (i = 0; i < WIN; i++) rev[i] = w[WIN - 1 - i];
      if (memmem(lo, hi - lo, w, WIN)) part[k].found++;
      if (memmem(lo, hi - lo, rev, WIN)) part[k].found++;
    }
  }
}
void ct_start(int index) { (void)index; np = 0; blocks = 0; }
void ct_on(void) {
  int k;
  if (np == 0 || part[0].arg == 98) for (k = 0; k < NA; k++) if (A[k].kind == 'x') add(k, A[k].p, A[k].len);
  on = 1;
}
void ct_off(void) { on = 0; }
void ct_report(void) {
  int k;
  r_str("|");
  r_int(blocks);
  for (k = 0; k < np; k++) { r_int(part[k].arg + 1); r_int(part[k].found); }
}
void __real_free(void *p);
void __wrap_free(void *p) {
  if (on && p) { search(p, (unsigned char *)p + malloc_usable_size(p)); blocks++; }
  __real_free(p);
}
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) {
  void *q;
  size_t m;
  if (!on || !p) return __real_realloc(p, n);
  m = malloc_usable_size(p);
  if ((q = malloc(n)) == NULL) return NULL;
  memcpy(q, p, m < n ? m : n);
  __wrap_free(p);
  return q;
}
