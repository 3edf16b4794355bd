#include "ecc_common.h"

#define OUT(sz) unsigned char *o = obuf(sz); size_t n = (sz); int ok
#define RET r_txt(ok, o, n)
#define FS ecdh_pubkey_size(mont(0))
static void mt_size(void) {
  mont_curve_t *c = mont(0);
  r_int(mont_curve_scalar_size(c)); r_int(mont_curve_scalar_bits(c)); r_int(mont_curve_field_size(c)); r_int(mont_curve_field_bits(c));
  r_int(ecdh_privkey_size(c)); r_int(ecdh_pubkey_size(c));
}
static int want;
static int pred(const unsigned char *p, void *arg) {
  if (arg != &want) abort();
  return (p[0] & 1) == want;
}
static void mt_gen(void) { OUT(FS) = 1; ecdh_privkey_generate(mont(0), o, P(1)); RET; }
static void mt_grind(void) { OUT(FS) = 1; want = (int)I(2); ecdh_privkey_grind(mont(0), o, P(1), pred, &want); RET; }
static void mt_pimport(void) {
  OUT(FS) = ecdh_privkey_import(mont(0), o, P(1), L(1));
  RET;
  if (ok) {
    unsigned char *q = obuf(n);
    r_txt(ecdh_privkey_export(mont(0), q, o), q, n);
    r_int(ecdh_privkey_verify(mont(0), q));
  }
}
static void mt_create(void) { OUT(FS) = 1; ecdh_pubkey_create(mont(0), o, P(1)); RET; }
static void mt_derive(void) { OUT(FS) = ecdh_derive(mont(0), o, P(1), P(2)); RET; }
static void mt_check(void) { r_int(ecdh_pubkey_verify(mont(0), P(1))); }
static void mt_small(void) { r_int(ecdh_pubkey_is_small(mont(0), P(1))); }
static void mt_tors(void) { r_int(ecdh_pubkey_has_torsion(mont(0), P(1))); }
static void mt_export(void) {
  unsigned char *y = obuf(FS);
  OUT(FS) = ecdh_pubkey_export(mont(0), o, y, P(1), (int)I(2));
  RET;
  if (ok) r_txt(ok, y, n);
}
static void mt_import(void) { OUT(FS) = ecdh_pubkey_import(mont(0), o, P(1), L(1), P(2), L(2)); RET; }
static void mt_convert(void) { OUT(FS + (FS == 56)) = ecdh_pubkey_convert(mont(0), o, P(1), (int)I(2)); RET; }
static void ed_tomont(void) { OUT(edwards_curve_field_size(edw(0))) = eddsa_pubkey_convert(edw(0), o, P(1)); RET; }
TABLE(ops) = {
  {"mt_size", mt_size}, {"mt_gen", mt_gen}, {"mt_grind", mt_grind}, {"mt_pimport", mt_pimport}, {"mt_create", mt_create}, {"mt_derive", mt_derive},
  {"mt_check", mt_check}, {"mt_small", mt_small}, {"mt_tors", mt_tors}, {"mt_export", mt_export}, {"mt_import", mt_import},
  {"mt_convert", mt_convert}, {"ed_tomont", ed_tomont}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
