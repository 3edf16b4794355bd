/* Further operations on secrets, for the observer of what is given back to the allocator. */
#include "drv.h"
#include "ct.h"
#include "er.h"
#include <malloc.h>
#include <torsion/rsa.h>
#include <torsion/dsa.h>
#include <torsion/ecc.h>
#include <torsion/hash.h>
#include <torsion/kdf.h>

#define CT(x) do { ct_on(); x; ct_off(); } while (0)
#define O1 unsigned char *o = obuf(8192); size_t n = 8192; int ok = 1
#define DONE() do { r_int(ok); r_hex(o, ok ? n : 0); } while (0)
#define OP(f, call) static void f(void) { O1; CT(ok = call); DONE(); }
#define OPV(f, call) static void f(void) { int ok; CT(ok = call); r_int(ok); }
OP(k_rpub, rsa_pubkey_create(o, &n, P(0), L(0)))
OPV(k_rverify, rsa_privkey_verify(P(0), L(0)))
OPV(k_rbits, rsa_privkey_bits(P(0), L(0)))
OP(k_rexport, rsa_privkey_export(o, &n, P(0), L(0)))
OP(k_rpss, rsa_sign_pss(o, &n, HASH_SHA256, P(1), L(1), P(0), L(0), 20, P(2)))
OP(k_dgen, dsa_privkey_create(o, &n, P(0), L(0), P(1)))
OP(k_dpub, dsa_pubkey_create(o, &n, P(0), L(0)))
OPV(k_dverify, dsa_privkey_verify(P(0), L(0)))
OPV(k_dbits, dsa_privkey_bits(P(0), L(0)) + dsa_privkey_qbits(P(0), L(0)))
OP(k_dimport, dsa_privkey_import(o, &n, P(0), L(0)))
OP(k_dexport, dsa_privkey_export(o, &n, P(0), L(0)))
OP(k_dparams, dsa_params_create(o, &n, P(0), L(0)))
static void k_scrypt(void) {
  unsigned char *o = obuf(64);
  int ok;
  CT(ok = scrypt_derive(o, P(0), L(0), P(1), L(1), I(2), (uint32_t)I(3), (uint32_t)I(4), 64));
  r_int(ok); r_hex(o, 64);
}

/* the end of a curve: secret is what randomising has changed in it */
static void changed(const unsigned char *p, const unsigned char *q, size_t n) {
  unsigned char *c = obuf(n);
  size_t i = 0, j;
  memcpy(c, q, n);
  while (i < n) {
    if (p[i] == q[i]) { i++; continue; }
    for (j = i; j < n && (j - i < 8 || memcmp(p + j - 4, q + j - 4, 4) != 0); j++) continue;
    er_secret(c + i, j - i);
    i = j;
  }
}
#define END_OF(f, type, create, randomize, destroy) \
static void f(void) { \
  type *x = create(I(0)); \
  unsigned char *c; \
  size_t n; \
  if (!x) { r_int(0); return; } \
  n = malloc_usable_size(x); \
  c = obuf(n); \
  memcpy(c, x, n); \
  randomize(x, P(1)); \
  changed(c, (unsigned char *)x, n); \
  CT(destroy(x)); \
  r_int(1); \
}
END_OF(k_wend, wei_curve_t, wei_curve_create, wei_curve_randomize, wei_curve_destroy)
END_OF(k_eend, edwards_curve_t, edwards_curve_create, edwards_curve_randomize, edwards_curve_destroy)

/* an operation that forgets nothing, to show that the observer sees it */
static __attribute__((noinline)) void give(const unsigned char *p, size_t n) {
  volatile unsigned char *q = malloc(n);
  size_t i;
  for (i = 0; i < n; i++) q[i] = p[i];
  free((void *)q);
}
static __attribute__((noinline)) void grow(const unsigned char *p, size_t n) {
  volatile unsigned char *q = malloc(n);
  size_t i;
  for (i = 0; i < n; i++) q[n - 1 - i] = p[i];
  q = realloc((void *)q, 2 * n);
  for (i = 0; i < 2 * n; i++) q[i] = 0;
  free((void *)q);
}
static void z_free(void) { CT(give(P(0), L(0))); r_int(1); }
static void z_grow(void) { CT(grow(P(0), L(0))); r_int(1); }

#define T(x) {#x, x}
TABLE(ops) = {
  T(k_rpub), T(k_rverify), T(k_rbits), T(k_rexport), T(k_rpss),
  T(k_dgen), T(k_dpub), T(k_dverify), T(k_dbits), T(k_dimport), T(k_dexport), T(k_dparams), T(k_scrypt), T(k_wend), T(k_eend), T(z_free), T(z_grow), END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
