#include "ecc_common.h"

/* the keys that "." refers to */
static unsigned char priv[MAXP], pub[MAXP];

static const unsigned char *pk(int k) {
  size_t n = bip340_privkey_size(wei(0));
  return A[k].kind != 's' ? P(k) : memcpy(obuf(n), priv, n);
}
static const unsigned char *qk(int k) {
  size_t n = bip340_pubkey_size(wei(0));
  return A[k].kind != 's' ? P(k) : memcpy(obuf(n), pub, n);
}
static void bs_support(void) { r_int(bipschnorr_support(wei(0))); }
static void bs_sign(void) {
  wei_curve_t *c = wei(0);
  size_t n = bipschnorr_sig_size(c);
  unsigned char *o = obuf(n);
  int ok = bipschnorr_sign(c, o, P(1), L(1), P(2));
  r_txt(ok, o, n);
}
static void bs_verify(void) { r_int(bipschnorr_verify(wei(0), P(1), L(1), P(2), P(3), L(3))); }
static void batch(int legacy) {
  wei_curve_t *c = wei(0);
  wei_scratch_t *s = wei_scratch_create(c, (size_t)I(1));
  const unsigned char *m[96], *t[96], *q[96];
  size_t ml[96], ql[96], n = 0;
  int i, again = 0, ok = 0;
  for (i = 2; i + 2 < NA; i += 3, n++) {
    m[n] = P(i); ml[n] = L(i); t[n] = P(i + 1); q[n] = P(i + 2); ql[n] = L(i + 2);
  }
  /* the scratch space serves more than once */
  for (i = 0; i < 2; i++) {
    again = ok;
    ok = legacy ? bipschnorr_verify_batch(c, m, ml, t, q, ql, n, s) : bip340_verify_batch(c, m, ml, t, q, n, s);
  }
  r_int(ok);
  if (ok != again) r_str("differs");
  wei_scratch_destroy(c, s);
}
static void bs_batch(void) { batch(1); }
static void xs_batch(void) { batch(0); }
static void xs_sign(void) {
  wei_curve_t *c = wei(0);
  size_t n = bip340_sig_size(c);
  unsigned char *o = obuf(n);
  int ok = bip340_sign(c, o, P(1), L(1), P(2), A[3].kind == 'n' ? NULL : P(3));
  r_txt(ok, o, n);
}
static void xs_verify(void) { r_int(bip340_verify(wei(0), P(1), L(1), P(2), P(3))); }
static void xs_size(void) {
  wei_curve_t *c = wei(0);
  r_int(bip340_privkey_size(c)); r_int(bip340_pubkey_size(c)); r_int(bip340_sig_size(c)); r_int(bipschnorr_sig_size(c));
}
#define PRIVOUT wei_curve_t *c = wei(0); size_t n = bip340_privkey_size(c); unsigned char *o = obuf(n); int ok
#define PRIVRET do { if (ok) memcpy(priv, o, n); r_txt(ok, o, n); } while (0)
#define PUBOUT wei_curve_t *c = wei(0); size_t n = bip340_pubkey_size(c); unsigned char *o = obuf(n); int ok
#define PUBRET do { if (ok) memcpy(pub, o, n); r_txt(ok, o, n); } while (0)
/* operations on "." are done in place */
#define HERE(k, last) (A[k].kind == 's' ? (const unsigned char *)memcpy(o, last, n) : P(k))
static int want;
static size_t fsz;
static int pred(const unsigned char *p, void *arg) {
  if (arg != &want) abort();
  return (p[fsz - 1] & 1) == want;
}
static void xs_gen(void) { PRIVOUT = 1; bip340_privkey_generate(c, o, P(1)); PRIVRET; }
static void xs_pgrind(void) {
  PRIVOUT = 1;
  want = (int)I(2); fsz = wei_curve_field_size(c);
  bip340_privkey_grind(c, o, P(1), pred, &want);
  PRIVRET;
}
static void xs_grind(void) {
  PRIVOUT;
  want = (int)I(2); fsz = wei_curve_field_size(c);
  ok = bip340_pubkey_grind(c, o, qk(1), pred, &want);
  r_txt(ok, o, n);
}
static void xs_pverify(void) { r_int(bip340_privkey_verify(wei(0), pk(1))); }
static void xs_pexport(void) {
  PRIVOUT;
  size_t f = wei_curve_field_size(c);
  unsigned char *x = obuf(f), *y = obuf(f);
  ok = bip340_privkey_export(c, o, x, y, HERE(1, priv));
  PRIVRET;
  if (ok) { r_txt(1, x, f); r_txt(1, y, f); }
}
static void xs_pimport(void) { PRIVOUT; ok = bip340_privkey_import(c, o, P(1), L(1)); PRIVRET; }
static void xs_padd(void) { PRIVOUT; ok = bip340_privkey_tweak_add(c, o, HERE(1, priv), P(2)); PRIVRET; }
static void xs_pmul(void) { PRIVOUT; ok = bip340_privkey_tweak_mul(c, o, HERE(1, priv), P(2)); PRIVRET; }
static void xs_pinv(void) { PRIVOUT; ok = bip340_privkey_invert(c, o, HERE(1, priv)); PRIVRET; }
static void xs_create(void) { PUBOUT; ok = bip340_pubkey_create(c, o, pk(1)); PUBRET; }
static void xs_check(void) { r_int(bip340_pubkey_verify(wei(0), qk(1))); }
static void xs_export(void) {
  PUBOUT;
  unsigned char *y = obuf(n);
  ok = bip340_pubkey_export(c, o, y, qk(1));
  r_txt(ok, o, n);
  if (ok) r_txt(ok, y, n);
}
static void xs_import(void) { PUBOUT; ok = bip340_pubkey_import(c, o, P(1), L(1), P(2), L(2)); PUBRET; }
static void xs_tadd(void) {
  PUBOUT;
  int neg = 7;
  ok = bip340_pubkey_tweak_add(c, o, &neg, HERE(1, pub), P(2));
  PUBRET;
  if (ok) {
    unsigned char *z = obuf(n);
    r_int(neg);
    /* the flag is optional */
    if (A[1].kind != 's' && (!bip340_pubkey_tweak_add(c, z, NULL, P(1), P(2)) || memcmp(o, z, n))) r_str("differs");
  }
}
static void xs_tmul(void) {
  PUBOUT;
  int neg = 7;
  ok = bip340_pubkey_tweak_mul(c, o, &neg, HERE(1, pub), P(2));
  PUBRET;
  if (ok) {
    unsigned char *z = obuf(n);
    r_int(neg);
    if (A[1].kind != 's' && (!bip340_pubkey_tweak_mul(c, z, NULL, P(1), P(2)) || memcmp(o, z, n))) r_str("differs");
  }
}
static void xs_taddc(void) { r_int(bip340_pubkey_tweak_add_check(wei(0), qk(1), P(2), P(3), (int)I(4))); }
static void xs_tmulc(void) { r_int(bip340_pubkey_tweak_mul_check(wei(0), qk(1), P(2), P(3), (int)I(4))); }
static void xs_add2(void) { PUBOUT; ok = bip340_pubkey_add(c, o, qk(1), qk(2)); PUBRET; }
static void xs_combine(void) {
  PUBOUT;
  const unsigned char *q[256];
  int i;
  for (i = 1; i < NA; i++) q[i - 1] = qk(i);
  ok = bip340_pubkey_combine(c, o, q, (size_t)(NA - 1));
  PUBRET;
}
static void xs_derive(void) { PUBOUT; ok = bip340_derive(c, o, qk(1), pk(2)); PUBRET; }
TABLE(ops) = {
  {"bs_support", bs_support}, {"bs_sign", bs_sign}, {"bs_verify", bs_verify}, {"bs_batch", bs_batch},
  {"xs_sign", xs_sign}, {"xs_verify", xs_verify}, {"xs_batch", xs_batch}, {"xs_size", xs_size},
  {"xs_gen", xs_gen}, {"xs_pgrind", xs_pgrind}, {"xs_grind", xs_grind}, {"xs_pverify", xs_pverify}, {"xs_pexport", xs_pexport},
  {"xs_pimport", xs_pimport}, {"xs_padd", xs_padd}, {"xs_pmul", xs_pmul}, {"xs_pinv", xs_pinv}, {"xs_create", xs_create},
  {"xs_check", xs_check}, {"xs_export", xs_export}, {"xs_import", xs_import}, {"xs_tadd", xs_tadd}, {"xs_tmul", xs_tmul},
  {"xs_taddc", xs_taddc}, {"xs_tmulc", xs_tmulc}, {"xs_add2", xs_add2}, {"xs_combine", xs_combine}, {"xs_derive", xs_derive}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
