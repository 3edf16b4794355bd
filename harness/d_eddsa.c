#include "ecc_common.h"

/* the scalar and the public key that "." refers to */
static unsigned char priv[MAXP], pub[MAXP];
static size_t es(void) { return eddsa_pubkey_size(edw(0)); }
static size_t ss(void) { return edwards_curve_scalar_size(edw(0)); }

static const unsigned char *pk(int k) { return A[k].kind != 's' ? P(k) : memcpy(obuf(ss()), priv, ss()); }
static const unsigned char *qk(int k) { return A[k].kind != 's' ? P(k) : memcpy(obuf(es()), pub, es()); }
#define SCOUT edwards_curve_t *c = edw(0); size_t n = ss(); unsigned char *o = obuf(n)
#define SCRET do { memcpy(priv, o, n); r_txt(1, o, n); } while (0)
#define PUBOUT edwards_curve_t *c = edw(0); size_t n = es(); unsigned char *o = obuf(n); int ok
#define PUBRET do { if (ok) memcpy(pub, o, n); r_txt(ok, o, n); } while (0)
/* operations on "." are done in place */
#define HERE(k, last) (A[k].kind == 's' ? (const unsigned char *)memcpy(o, last, n) : P(k))
static void ed_rand(void) {
  edwards_curve_randomize(edw(0), P(1));
  touched(0);
  r_str("ok");
}
static void ed_size(void) {
  edwards_curve_t *c = edw(0);
  r_int(edwards_curve_scalar_size(c)); r_int(edwards_curve_scalar_bits(c)); r_int(edwards_curve_field_bits(c)); r_int(edwards_curve_field_size(c));
  r_int(eddsa_privkey_size(c)); r_int(eddsa_pubkey_size(c)); r_int(eddsa_sig_size(c));
}
static int want;
static int pred(const unsigned char *p, void *arg) {
  if (arg != &want) abort();
  return (p[0] & 1) == want;
}
static void ed_gen(void) { PUBOUT = 1; eddsa_privkey_generate(c, o, P(1)); r_txt(ok, o, n); }
static void ed_sgen(void) { SCOUT; eddsa_scalar_generate(c, o, P(1)); SCRET; }
static void ed_grind(void) { PUBOUT = 1; want = (int)I(2); eddsa_privkey_grind(c, o, P(1), pred, &want); r_txt(ok, o, n); }
static void ed_sgrind(void) { SCOUT; want = (int)I(2); eddsa_scalar_grind(c, o, P(1), pred, &want); SCRET; }
static void ed_expand(void) {
  SCOUT;
  unsigned char *f = obuf(es());
  eddsa_privkey_expand(c, o, f, P(1));
  SCRET;
  r_txt(1, f, es());
}
static void ed_convert(void) { SCOUT; eddsa_privkey_convert(c, o, P(1)); SCRET; }
static void ed_pimport(void) {
  PUBOUT;
  ok = eddsa_privkey_import(c, o, P(1), L(1));
  r_txt(ok, o, n);
  if (ok) {
    unsigned char *q = obuf(n);
    r_txt(eddsa_privkey_export(c, q, o), q, n);
    r_int(eddsa_privkey_verify(c, q));
  }
}
static void ed_szero(void) { r_int(eddsa_scalar_is_zero(edw(0), pk(1))); }
static void ed_sclamp(void) { SCOUT; eddsa_scalar_clamp(c, o, HERE(1, priv)); SCRET; }
static void ed_sadd(void) { SCOUT; eddsa_scalar_tweak_add(c, o, HERE(1, priv), P(2)); SCRET; }
static void ed_smul(void) { SCOUT; eddsa_scalar_tweak_mul(c, o, HERE(1, priv), P(2)); SCRET; }
static void ed_sred(void) { SCOUT; eddsa_scalar_reduce(c, o, HERE(1, priv)); SCRET; }
static void ed_sneg(void) { SCOUT; eddsa_scalar_negate(c, o, HERE(1, priv)); SCRET; }
static void ed_sinv(void) { SCOUT; eddsa_scalar_invert(c, o, HERE(1, priv)); SCRET; }
static void ed_create(void) { PUBOUT = 1; eddsa_pubkey_create(c, o, P(1)); PUBRET; }
static void ed_from(void) { PUBOUT = 1; eddsa_pubkey_from_scalar(c, o, pk(1)); PUBRET; }
static void ed_check(void) { r_int(eddsa_pubkey_verify(edw(0), qk(1))); }
static void ed_export(void) {
  edwards_curve_t *c = edw(0);
  size_t f = edwards_curve_field_size(c);
  unsigned char *x = obuf(f), *y = obuf(f);
  int ok = eddsa_pubkey_export(c, x, y, qk(1));
  r_txt(ok, x, f);
  if (ok) r_txt(ok, y, f);
}
static void ed_import(void) { PUBOUT; ok = eddsa_pubkey_import(c, o, P(1), L(1), P(2), L(2), (int)I(3)); PUBRET; }
static void ed_inf(void) { r_int(eddsa_pubkey_is_infinity(edw(0), qk(1))); }
static void ed_small(void) { r_int(eddsa_pubkey_is_small(edw(0), qk(1))); }
static void ed_tors(void) { r_int(eddsa_pubkey_has_torsion(edw(0), qk(1))); }
static void ed_tadd(void) { PUBOUT; ok = eddsa_pubkey_tweak_add(c, o, HERE(1, pub), P(2)); PUBRET; }
static void ed_tmul(void) { PUBOUT; ok = eddsa_pubkey_tweak_mul(c, o, HERE(1, pub), P(2)); PUBRET; }
static void ed_add2(void) { PUBOUT; ok = eddsa_pubkey_add(c, o, qk(1), qk(2)); PUBRET; }
static void ed_neg(void) { PUBOUT; ok = eddsa_pubkey_negate(c, o, HERE(1, pub)); PUBRET; }
static void ed_combine(void) {
  PUBOUT;
  const unsigned char *q[256];
  int i;
  for (i = 1; i < NA; i++) q[i - 1] = qk(i);
  ok = eddsa_pubkey_combine(c, o, q, (size_t)(NA - 1));
  PUBRET;
}
static void ed_derive(void) { PUBOUT; ok = eddsa_derive(c, o, qk(1), P(2)); PUBRET; }
static void ed_derives(void) { PUBOUT; ok = eddsa_derive_with_scalar(c, o, qk(1), pk(2)); PUBRET; }
#define SIGOUT edwards_curve_t *c = edw(0); size_t n = eddsa_sig_size(c); unsigned char *o = obuf(n)
#define SIGRET r_txt(1, o, n)
static void ed_sign(void) { SIGOUT; eddsa_sign(c, o, P(1), L(1), P(2), (int)I(3), P(4), L(4)); SIGRET; }
static void ed_signs(void) { SIGOUT; eddsa_sign_with_scalar(c, o, P(1), L(1), P(2), P(5), (int)I(3), P(4), L(4)); SIGRET; }
static void ed_signa(void) { SIGOUT; eddsa_sign_tweak_add(c, o, P(1), L(1), P(2), P(5), (int)I(3), P(4), L(4)); SIGRET; }
static void ed_signm(void) { SIGOUT; eddsa_sign_tweak_mul(c, o, P(1), L(1), P(2), P(5), (int)I(3), P(4), L(4)); SIGRET; }
static void ed_verify(void) { r_int(eddsa_verify(edw(0), P(1), L(1), P(2), P(3), (int)I(4), P(5), L(5))); }
static void ed_single(void) { r_int(eddsa_verify_single(edw(0), P(1), L(1), P(2), P(3), (int)I(4), P(5), L(5))); }
static void ed_batch(void) {
  edwards_curve_t *c = edw(0);
  edwards_scratch_t *s = edwards_scratch_create(c, (size_t)I(1));
  const unsigned char *m[96], *t[96], *q[96];
  size_t ml[96], n = 0;
  int i, again = 0, ok = 0;
  for (i = 4; i + 2 < NA; i += 3, n++) {
    m[n] = P(i); ml[n] = L(i); t[n] = P(i + 1); q[n] = P(i + 2);
  }
  for (i = 0; i < 2; i++) {
    again = ok;
    ok = eddsa_verify_batch(c, m, ml, t, q, n, (int)I(2), P(3), L(3), s);
  }
  r_int(ok);
  if (ok != again) r_str("differs");
  edwards_scratch_destroy(c, s);
}
TABLE(ops) = {
  {"ed_rand", ed_rand}, {"ed_size", ed_size}, {"ed_gen", ed_gen}, {"ed_sgen", ed_sgen}, {"ed_grind", ed_grind}, {"ed_sgrind", ed_sgrind},
  {"ed_expand", ed_expand}, {"ed_convert", ed_convert}, {"ed_pimport", ed_pimport}, {"ed_szero", ed_szero}, {"ed_sclamp", ed_sclamp},
  {"ed_sadd", ed_sadd}, {"ed_smul", ed_smul}, {"ed_sred", ed_sred}, {"ed_sneg", ed_sneg}, {"ed_sinv", ed_sinv},
  {"ed_create", ed_create}, {"ed_from", ed_from}, {"ed_check", ed_check}, {"ed_export", ed_export}, {"ed_import", ed_import},
  {"ed_inf", ed_inf}, {"ed_small", ed_small}, {"ed_tors", ed_tors}, {"ed_tadd", ed_tadd}, {"ed_tmul", ed_tmul}, {"ed_add2", ed_add2},
  {"ed_neg", ed_neg}, {"ed_combine", ed_combine}, {"ed_derive", ed_derive}, {"ed_derives", ed_derives}, {"ed_sign", ed_sign},
  {"ed_signs", ed_signs}, {"ed_signa", ed_signa}, {"ed_signm", ed_signm}, {"ed_verify", ed_verify}, {"ed_single", ed_single},
  {"ed_batch", ed_batch}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
