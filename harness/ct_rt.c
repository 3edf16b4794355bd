/* Observer of instrumented builds: every basic block entered and every address read or written between
   ct_on and ct_off is an event; the events are summarised by at most CHUNKS digests of equal stretches. */
#include "drv.h"
#include "ct.h"
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <torsion/mpi.h>

#define CHUNKS 64
static int on, hidden;
static uint64_t dig[CHUNKS], cur, count, span = 256, incur;
static int nd;
static FILE *dump;
extern char __executable_start, etext;

static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v;
  h *= 0x9fb21c651e98df25ull;
  h ^= h >> 29;
  return h * 0xff51afd7ed558ccdull + 0x2545f4914f6cdd1dull;
}
static void ev(unsigned kind, uint64_t v) {
  if (!on || hidden) return;
  cur = mix(cur, v << 4 | kind);
  count++;
  if (dump) { uint64_t e = v << 4 | kind; fwrite_unlocked(&e, 8, 1, dump); }
  if (++incur == span) {
    dig[nd++] = cur;
    cur = 0;
    incur = 0;
    if (nd == CHUNKS) {
      int i;
      for (i = 0; i < CHUNKS / 2; i++) dig[i] = mix(mix(1, dig[2 * i]), dig[2 * i + 1]);
      nd = CHUNKS / 2;
      span *= 2;
    }
  }
}
void ct_on(void) { on = 1; }
void ct_off(void) { on = 0; }
void ct_start(int index) {
  const char *p = getenv("VT_CT_DUMP");
  char name[512];
  if (p) {
    snprintf(name, sizeof(name), "%s%d", p, index);
    if ((dump = fopen(name, "wb")) == NULL) die("cannot write the dump");
  }
  if (dump) setvbuf(dump, malloc(1 << 20), _IOFBF, 1 << 20);
}
void ct_report(void) {
  char b[24];
  int i;
  if (dump) fclose(dump);
  r_str("|");
  sprintf(b, "%llu", (unsigned long long)count);
  r_str(b);
  if (incur) dig[nd++] = cur;
  for (i = 0; i < nd; i++) { sprintf(b, "%016llx", (unsigned long long)dig[i]); r_str(b); }
}

/* control flow */
void __sanitizer_cov_trace_pc(void) { ev(1, (char *)__builtin_return_address(0) - &__executable_start); }

/* parts of the library that are not watched announce their calls; the exponentiation for secret exponents
   is watched even there */
static int kept[16], nkept;
static int apart(void *f) { return f == (void *)mpn_sec_powm; }
void __cyg_profile_func_enter(void *f, void *s) {
  if (apart(f) && nkept < 16) { kept[nkept++] = hidden; hidden = 0; return; }
  hidden++;
}
void __cyg_profile_func_exit(void *f, void *s) {
  if (apart(f) && nkept > 0) { hidden = kept[--nkept]; return; }
  hidden--;
}

/* data */
#define ACC(n) \
  void __asan_load##n##_noabort(uintptr_t a) { ev(2, a); } \
  void __asan_store##n##_noabort(uintptr_t a) { ev(3, a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { ev(4, a); ev(4, n); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { ev(5, a); ev(5, n); }
void __asan_handle_no_return(void) {}

/* the C library */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__real_malloc(size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  ev(6, (uintptr_t)d); ev(6, (uintptr_t)s); ev(6, n);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  ev(7, (uintptr_t)d); ev(7, (uintptr_t)s); ev(7, n);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  ev(8, (uintptr_t)d); ev(8, n);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *x, const void *y, size_t n) {
  /* stops at the first difference */
  size_t i = 0;
  while (i < n && ((const char *)x)[i] == ((const char *)y)[i]) i++;
  ev(9, (uintptr_t)x); ev(9, (uintptr_t)y); ev(9, i);
  return __real_memcmp(x, y, n);
}
void *__wrap_malloc(size_t n) {
  ev(10, n);
  return __real_malloc(n);
}

/* the exponentiation of variable duration shows its exponent and its modulus */
#define STR2(x) #x
#define STR(x) STR2(x)
void real_powm(mpz_ptr, mpz_srcptr, mpz_srcptr, mpz_srcptr) __asm__("__real_" STR(mpz_powm));
void wrap_powm(mpz_ptr, mpz_srcptr, mpz_srcptr, mpz_srcptr) __asm__("__wrap_" STR(mpz_powm));
void wrap_powm(mpz_ptr z, mpz_srcptr x, mpz_srcptr y, mpz_srcptr m) {
  int i;
  for (i = 0; i < abs((int)y->size); i++) ev(11, y->limbs[i]);
  for (i = 0; i < abs((int)m->size); i++) ev(12, m->limbs[i]);
  real_powm(z, x, y, m);
}
