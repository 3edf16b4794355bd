#include "ecc_common.h"

/* the keys that "." refers to */
static unsigned char priv[MAXP], pub[2 * MAXP];
static size_t priv_len, pub_len;

static const unsigned char *pk(int k) {
  if (A[k].kind != 's') return P(k);
  return memcpy(obuf(priv_len), priv, priv_len);
}
static const unsigned char *qk(int k, size_t *n) {
  if (A[k].kind != 's') { *n = L(k); return P(k); }
  *n = pub_len;
  return memcpy(obuf(pub_len), pub, pub_len);
}
static void r_priv(int ok, const unsigned char *p, size_t n) {
  if (ok) { memcpy(priv, p, n); priv_len = n; }
  r_txt(ok, p, n);
}
static void r_pub(int ok, const unsigned char *p, size_t n) {
  if (ok) { memcpy(pub, p, n); pub_len = n; }
  r_txt(ok, p, n);
}
static void ec_rand(void) {
  wei_curve_randomize(wei(0), P(1));
  touched(0);
  r_str("ok");
}
static void ec_size(void) {
  wei_curve_t *c = wei(0);
  r_int(wei_curve_scalar_size(c)); r_int(wei_curve_scalar_bits(c)); r_int(wei_curve_field_size(c)); r_int(wei_curve_field_bits(c));
  r_int(ecdsa_privkey_size(c)); r_int(ecdsa_pubkey_size(c, 1)); r_int(ecdsa_pubkey_size(c, 0)); r_int(ecdsa_sig_size(c));
}
static int skips;
static void redefine(void *p, size_t n) {
  int *ok = p;
  (void)n;
  if (skips > 0) { *ok = 0; skips--; }
}
static void ec_sign(void) {
  wei_curve_t *c = wei(0);
  size_t n = ecdsa_sig_size(c);
  unsigned char *o = obuf(n);
  unsigned int param = 77;
  int ok, e = (int)I(3);
  skips = e;
  if (e == 0) ok = ecdsa_sign(c, o, &param, P(1), L(1), P(2));
  else ok = ecdsa_sign_internal(c, o, &param, P(1), L(1), P(2), redefine);
  r_txt(ok, o, n);
  if (ok) {
    unsigned char *o2 = obuf(n);
    r_int(param);
    /* the hint is optional */
    if (e == 0 && (!ecdsa_sign(c, o2, NULL, P(1), L(1), P(2)) || memcmp(o, o2, n))) r_str("differs");
  }
}
static void ec_verify(void) {
  size_t n;
  const unsigned char *q = qk(3, &n);
  r_int(ecdsa_verify(wei(0), P(1), L(1), P(2), q, n));
}
#define PUBOUT(i) wei_curve_t *c = wei(0); int z = (int)I(i); size_t n = ecdsa_pubkey_size(c, z), m = 999; unsigned char *o = obuf(n); int ok
#define PUBRET do { if (ok && m != n) r_str("length"); r_pub(ok, o, ok ? m : 0); } while (0)
static void ec_recover(void) {
  PUBOUT(4);
  ok = ecdsa_recover(c, o, &m, P(1), L(1), P(2), (unsigned int)I(3), z);
  PUBRET;
}
static void ec_sigexp(void) {
  unsigned char *o = obuf(ECDSA_MAX_DER_SIZE);
  size_t m = 0;
  int ok = ecdsa_sig_export(wei(0), o, &m, P(1));
  r_txt(ok, o, m);
}
static void ec_sigimp(void) {
  wei_curve_t *c = wei(0);
  unsigned char *o = obuf(ecdsa_sig_size(c));
  int ok = ecdsa_sig_import(c, o, P(1), L(1));
  r_txt(ok, o, ecdsa_sig_size(c));
}
static void ec_siglax(void) {
  wei_curve_t *c = wei(0);
  unsigned char *o = obuf(ecdsa_sig_size(c));
  int ok = ecdsa_sig_import_lax(c, o, P(1), L(1));
  r_txt(ok, o, ecdsa_sig_size(c));
}
static void ec_norm(void) {
  wei_curve_t *c = wei(0);
  unsigned char *o = obuf(ecdsa_sig_size(c));
  int ok = ecdsa_sig_normalize(c, o, P(1));
  r_txt(ok, o, ecdsa_sig_size(c));
}
static void ec_low(void) { r_int(ecdsa_is_low_s(wei(0), P(1))); }

#define PRIVOUT wei_curve_t *c = wei(0); size_t n = ecdsa_privkey_size(c); unsigned char *o = obuf(n); int ok
#define PRIVRET r_priv(ok, o, n)
/* operations on "." are done in place */
#define HERE(k) (A[k].kind == 's' ? (const unsigned char *)memcpy(o, priv, n) : P(k))
static void ec_gen(void) { PRIVOUT = 1; ecdsa_privkey_generate(c, o, P(1)); PRIVRET; }
static int want;
static size_t fsz;
static int pred(const unsigned char *p, size_t n, void *arg) {
  (void)n;
  if (arg != &want) abort();
  return (p[fsz] & 1) == want;
}
static void ec_pgrind(void) {
  PRIVOUT = 1;
  want = (int)I(2); fsz = wei_curve_field_size(c);
  ecdsa_privkey_grind(c, o, P(1), (int)I(3), pred, &want);
  PRIVRET;
}
static void ec_grind(void) {
  PRIVOUT;
  size_t m;
  const unsigned char *q = qk(1, &m);
  want = (int)I(2); fsz = wei_curve_field_size(c);
  ok = ecdsa_pubkey_grind(c, o, q, m, pred, &want);
  r_txt(ok, o, n);
}
static void ec_pverify(void) { r_int(ecdsa_privkey_verify(wei(0), pk(1))); }
static void ec_pexport(void) { PRIVOUT; ok = ecdsa_privkey_export(c, o, HERE(1)); PRIVRET; }
static void ec_pimport(void) { PRIVOUT; ok = ecdsa_privkey_import(c, o, P(1), L(1)); PRIVRET; }
static void ec_padd(void) { PRIVOUT; ok = ecdsa_privkey_tweak_add(c, o, HERE(1), P(2)); PRIVRET; }
static void ec_pmul(void) { PRIVOUT; ok = ecdsa_privkey_tweak_mul(c, o, HERE(1), P(2)); PRIVRET; }
static void ec_pneg(void) { PRIVOUT; ok = ecdsa_privkey_negate(c, o, HERE(1)); PRIVRET; }
static void ec_pinv(void) { PRIVOUT; ok = ecdsa_privkey_invert(c, o, HERE(1)); PRIVRET; }
static void ec_create(void) { PUBOUT(2); ok = ecdsa_pubkey_create(c, o, &m, pk(1), z); PUBRET; }
static void ec_conv(void) {
  PUBOUT(2);
  size_t k;
  const unsigned char *q = qk(1, &k);
  ok = ecdsa_pubkey_convert(c, o, &m, q, k, z);
  PUBRET;
}
static void ec_check(void) {
  size_t k;
  const unsigned char *q = qk(1, &k);
  r_int(ecdsa_pubkey_verify(wei(0), q, k));
}
static void ec_export(void) {
  wei_curve_t *c = wei(0);
  size_t k, n = wei_curve_field_size(c);
  const unsigned char *q = qk(1, &k);
  unsigned char *x = obuf(n), *y = obuf(n);
  int ok = ecdsa_pubkey_export(c, x, y, q, k);
  r_txt(ok, x, n);
  if (ok) r_txt(ok, y, n);
}
static void ec_import(void) {
  PUBOUT(4);
  ok = ecdsa_pubkey_import(c, o, &m, P(1), L(1), P(2), L(2), (int)I(3), z);
  PUBRET;
}
static void ec_add2(void) {
  PUBOUT(3);
  size_t k, l;
  const unsigned char *q = qk(1, &k), *w = qk(2, &l);
  ok = ecdsa_pubkey_add(c, o, &m, q, k, w, l, z);
  PUBRET;
}
static void ec_tadd(void) {
  PUBOUT(3);
  size_t k;
  const unsigned char *q = qk(1, &k);
  ok = ecdsa_pubkey_tweak_add(c, o, &m, q, k, P(2), z);
  PUBRET;
}
static void ec_tmul(void) {
  PUBOUT(3);
  size_t k;
  const unsigned char *q = qk(1, &k);
  ok = ecdsa_pubkey_tweak_mul(c, o, &m, q, k, P(2), z);
  PUBRET;
}
static void ec_neg(void) {
  PUBOUT(2);
  size_t k;
  const unsigned char *q = qk(1, &k);
  ok = ecdsa_pubkey_negate(c, o, &m, q, k, z);
  PUBRET;
}
static void ec_combine(void) {
  PUBOUT(1);
  const unsigned char *ps[32];
  size_t ls[32];
  int i;
  for (i = 2; i < NA; i++) ps[i - 2] = qk(i, &ls[i - 2]);
  ok = ecdsa_pubkey_combine(c, o, &m, ps, ls, NA - 2, z);
  PUBRET;
}
static void ec_derive(void) {
  PUBOUT(3);
  size_t k;
  const unsigned char *q = qk(1, &k);
  ok = ecdsa_derive(c, o, &m, q, k, pk(2), z);
  PUBRET;
}
TABLE(ops) = {
  {"ec_rand", ec_rand}, {"ec_size", ec_size}, {"ec_sign", ec_sign}, {"ec_verify", ec_verify}, {"ec_recover", ec_recover},
  {"ec_sigexp", ec_sigexp}, {"ec_sigimp", ec_sigimp}, {"ec_siglax", ec_siglax}, {"ec_norm", ec_norm}, {"ec_low", ec_low},
  {"ec_gen", ec_gen}, {"ec_pgrind", ec_pgrind}, {"ec_grind", ec_grind}, {"ec_pverify", ec_pverify}, {"ec_pexport", ec_pexport},
  {"ec_pimport", ec_pimport}, {"ec_padd", ec_padd}, {"ec_pmul", ec_pmul}, {"ec_pneg", ec_pneg}, {"ec_pinv", ec_pinv},
  {"ec_create", ec_create}, {"ec_conv", ec_conv}, {"ec_check", ec_check}, {"ec_export", ec_export}, {"ec_import", ec_import},
  {"ec_add2", ec_add2}, {"ec_tadd", ec_tadd}, {"ec_tmul", ec_tmul}, {"ec_neg", ec_neg}, {"ec_combine", ec_combine},
  {"ec_derive", ec_derive}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
