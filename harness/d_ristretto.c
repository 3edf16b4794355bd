#include "ecc_common.h"

/* the last keys, for arguments given as "." */
static unsigned char lastk[MAXP], lastp[MAXP];
static const unsigned char *K(int k) { return A[k].kind == 's' ? lastk : P(k); }
static const unsigned char *Q(int k) { return A[k].kind == 's' ? lastp : P(k); }
#define C edw(0)
#define SS ristretto_privkey_size(C)
#define FS ristretto_pubkey_size(C)
#define OUT(sz) unsigned char *o = obuf(sz); size_t n = (sz); int ok
#define RETK do { if (ok) memcpy(lastk, o, n); r_txt(ok, o, n); } while (0)
#define RETP do { if (ok) memcpy(lastp, o, n); r_txt(ok, o, n); } while (0)
static void rs_size(void) { r_int(SS); r_int(FS); }
static void rs_rand(void) { edwards_curve_randomize(C, P(1)); touched(0); r_str("ok"); }
static int want;
static int pred(const unsigned char *p, void *arg) {
  if (arg != &want) abort();
  return ((p[0] >> 1) & 1) == want;
}
static void rs_gen(void) { OUT(SS) = 1; ristretto_privkey_generate(C, o, P(1)); RETK; }
static void rs_grind(void) { OUT(SS) = 1; want = (int)I(2); ristretto_privkey_grind(C, o, P(1), pred, &want); RETK; }
static void rs_pgrind(void) { OUT(SS); want = (int)I(2); ok = ristretto_pubkey_grind(C, o, Q(1), pred, &want); RETK; }
static void rs_pwide(void) { OUT(SS) = 1; ristretto_privkey_from_uniform(C, o, P(1)); RETK; }
static void rs_pverify(void) { r_int(ristretto_privkey_verify(C, K(1))); }
static void rs_pzero(void) { r_int(ristretto_privkey_is_zero(C, K(1))); }
static void rs_pimport(void) {
  OUT(SS) = ristretto_privkey_import(C, o, P(1), L(1));
  RETK;
  if (ok) {
    unsigned char *q = obuf(n);
    r_txt(ristretto_privkey_export(C, q, o), q, n);
  }
}
static void rs_pexport(void) { OUT(SS) = ristretto_privkey_export(C, o, K(1)); r_txt(ok, o, n); }
static void rs_padd(void) { OUT(SS) = ristretto_privkey_tweak_add(C, o, K(1), K(2)); RETK; }
static void rs_pmul(void) { OUT(SS) = ristretto_privkey_tweak_mul(C, o, K(1), K(2)); RETK; }
static void rs_pneg(void) { OUT(SS) = ristretto_privkey_negate(C, o, K(1)); RETK; }
static void rs_pinv(void) { OUT(SS) = ristretto_privkey_invert(C, o, K(1)); RETK; }
static void rs_create(void) { OUT(FS) = ristretto_pubkey_create(C, o, K(1)); RETP; }
static void rs_check(void) { r_int(ristretto_pubkey_verify(C, Q(1))); }
static void rs_inf(void) { r_int(ristretto_pubkey_is_infinity(C, Q(1))); }
static void rs_tadd(void) { OUT(FS) = ristretto_pubkey_tweak_add(C, o, Q(1), K(2)); RETP; }
static void rs_tmul(void) { OUT(FS) = ristretto_pubkey_tweak_mul(C, o, Q(1), K(2)); RETP; }
static void rs_derive(void) { OUT(FS) = ristretto_derive(C, o, Q(1), K(2)); RETP; }
static void rs_add(void) { OUT(FS) = ristretto_pubkey_add(C, o, Q(1), Q(2)); RETP; }
static void rs_combine(void) {
  const unsigned char *ps[256];
  int i;
  OUT(FS);
  for (i = 1; i < NA; i++) ps[i - 1] = Q(i);
  ok = ristretto_pubkey_combine(C, o, ps, NA - 1);
  RETP;
}
static void rs_neg(void) { OUT(FS) = ristretto_pubkey_negate(C, o, Q(1)); RETP; }
static void rs_map(void) { OUT(FS) = 1; ristretto_pubkey_from_uniform(C, o, P(1)); RETP; }
static void rs_hash(void) { OUT(FS) = 1; ristretto_pubkey_from_hash(C, o, P(1)); RETP; }
TABLE(ops) = {
  {"rs_size", rs_size}, {"rs_rand", rs_rand}, {"rs_keygen", rs_gen}, {"rs_grind", rs_grind}, {"rs_pgrind", rs_pgrind}, {"rs_pwide", rs_pwide}, {"rs_pverify", rs_pverify},
  {"rs_pzero", rs_pzero}, {"rs_pimport", rs_pimport}, {"rs_pexport", rs_pexport}, {"rs_padd", rs_padd}, {"rs_pmul", rs_pmul}, {"rs_pneg", rs_pneg},
  {"rs_pinv", rs_pinv}, {"rs_create", rs_create}, {"rs_check", rs_check}, {"rs_inf", rs_inf}, {"rs_tadd", rs_tadd}, {"rs_tmul", rs_tmul}, {"rs_derive", rs_derive},
  {"rs_add", rs_add}, {"rs_combine", rs_combine}, {"rs_neg", rs_neg}, {"rs_map", rs_map}, {"rs_hash", rs_hash}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
