/* Operations on secrets; the observer watches the library call only. */
#include "drv.h"
#include "ct.h"
#include <torsion/ecc.h>
#include <torsion/util.h>
#include <torsion/rsa.h>
#include <torsion/dsa.h>
#include <torsion/cipher.h>
#include <torsion/stream.h>
#include <torsion/aead.h>
#include <torsion/kdf.h>
#include <torsion/mpi.h>
#include <torsion/hash.h>
#include <torsion/mac.h>
#include <torsion/ies.h>
#include <unistd.h>

/* each curve also in a randomised copy, named with a final r */
static wei_curve_t *W[12];
static mont_curve_t *M[2];
static edwards_curve_t *E[6];
static const char *WN[] = {"p192", "p224", "p256", "p384", "p521", "secp256k1",
                           "p192r", "p224r", "p256r", "p384r", "p521r", "secp256k1r"};
static const char *MN[] = {"x25519", "x448"};
static const char *EN[] = {"ed25519", "ed448", "ed1174", "ed25519r", "ed448r", "ed1174r"};
static int find(const char **t, int n, const char *s) {
  int i;
  for (i = 0; i < n; i++) if (strcmp(t[i], s) == 0) return i;
  die("unknown curve");
  return 0;
}
#define WEI W[find(WN, 12, S(0))]
#define MONT M[find(MN, 2, S(0))]
#define EDW E[find(EN, 6, S(0))]
#define MAXO 512
#define CT(x) do { ct_on(); x; ct_off(); } while (0)
#define O1 unsigned char *o = obuf(MAXO); size_t n = MAXO; int ok = 1; (void)n
#define DONE(sz) do { r_int(ok); r_hex(o, ok ? (sz) : 0); } while (0)
#define WFS wei_curve_field_size(c)
#define WSS wei_curve_scalar_size(c)
#define OPW(name) static void name(void) { wei_curve_t *c = WEI; O1;
#define OPM(name) static void name(void) { mont_curve_t *c = MONT; O1;
#define OPE(name) static void name(void) { edwards_curve_t *c = EDW; O1;

/* comparisons: the result itself is not an output of the run */
static void u_equal(void) { int r; CT(r = torsion_memequal(P(0), P(1), L(0))); r_int(r); }
static void u_cmp(void) { int r; CT(r = torsion_memcmp(P(0), P(1), L(0))); r_int(r); }
static void u_xor(void) { O1; memcpy(o, P(0), L(0)); CT(torsion_memxor(o, P(1), L(0))); DONE(L(0)); }
static void u_xor3(void) { O1; CT(torsion_memxor3(o, P(0), P(1), L(0))); DONE(L(0)); }
static void u_unpad(void) { O1; CT(ok = pkcs7_unpad(o, &n, P(0), L(0))); DONE(n); }

/* Weierstrass keys: name, private key, ... */
OPW(w_create) CT(ok = ecdsa_pubkey_create(c, o, &n, P(1), 1)); DONE(n); }
OPW(w_verify) CT(ok = ecdsa_privkey_verify(c, P(1))); DONE(0); }
OPW(w_export) CT(ok = ecdsa_privkey_export(c, o, P(1))); DONE(WSS); }
OPW(w_import) CT(ok = ecdsa_privkey_import(c, o, P(1), L(1))); DONE(WSS); }
OPW(w_gen) CT(ecdsa_privkey_generate(c, o, P(1))); DONE(WSS); }
OPW(w_tadd) CT(ok = ecdsa_privkey_tweak_add(c, o, P(1), P(2))); DONE(WSS); }
OPW(w_tmul) CT(ok = ecdsa_privkey_tweak_mul(c, o, P(1), P(2))); DONE(WSS); }
OPW(w_neg) CT(ok = ecdsa_privkey_negate(c, o, P(1))); DONE(WSS); }
OPW(w_inv) CT(ok = ecdsa_privkey_invert(c, o, P(1))); DONE(WSS); }
OPW(w_derive) CT(ok = ecdsa_derive(c, o, &n, P(2), L(2), P(1), 1)); DONE(n); }
OPW(w_sign) unsigned par; CT(ok = ecdsa_sign(c, o, &par, P(2), L(2), P(1))); DONE(2 * WSS); }
OPW(w_bsign) CT(ok = bipschnorr_sign(c, o, P(2), L(2), P(1))); DONE(WFS + WSS); }
OPW(w_xcreate) CT(ok = bip340_pubkey_create(c, o, P(1))); DONE(WFS); }
OPW(w_xsign) CT(ok = bip340_sign(c, o, P(2), L(2), P(1), P(3))); DONE(WFS + WSS); }
OPW(w_xderive) CT(ok = bip340_derive(c, o, P(2), P(1))); DONE(WFS); }
OPW(w_xtadd) CT(ok = bip340_privkey_tweak_add(c, o, P(1), P(2))); DONE(WSS); }
OPW(w_xtmul) CT(ok = bip340_privkey_tweak_mul(c, o, P(1), P(2))); DONE(WSS); }
OPW(w_xinv) CT(ok = bip340_privkey_invert(c, o, P(1))); DONE(WSS); }
OPW(w_xexport) unsigned char *x = obuf(MAXO), *y = obuf(MAXO); CT(ok = bip340_privkey_export(c, o, x, y, P(1))); DONE(WSS); }

OPW(w_rand) CT(wei_curve_randomize(c, P(1))); DONE(0); }
OPM(m_create) CT(ecdh_pubkey_create(c, o, P(1))); DONE(ecdh_pubkey_size(c)); }
OPM(m_derive) CT(ok = ecdh_derive(c, o, P(2), P(1))); DONE(ecdh_pubkey_size(c)); }
OPM(m_verify) CT(ok = ecdh_privkey_verify(c, P(1))); DONE(0); }
OPM(m_gen) CT(ecdh_privkey_generate(c, o, P(1))); DONE(ecdh_privkey_size(c)); }
OPM(m_import) CT(ok = ecdh_privkey_import(c, o, P(1), L(1))); DONE(ecdh_privkey_size(c)); }

#define ESS edwards_curve_scalar_size(c)
#define EPS eddsa_privkey_size(c)
#define EUS eddsa_pubkey_size(c)
OPE(e_create) CT(eddsa_pubkey_create(c, o, P(1))); DONE(EUS); }
OPE(e_expand) unsigned char *x = obuf(MAXO); CT(eddsa_privkey_expand(c, o, x, P(1))); DONE(ESS); }
OPE(e_convert) CT(eddsa_privkey_convert(c, o, P(1))); DONE(ESS); }
OPE(e_fromsc) CT(eddsa_pubkey_from_scalar(c, o, P(1))); DONE(EUS); }
OPE(e_sverify) CT(ok = eddsa_scalar_verify(c, P(1))); DONE(0); }
OPE(e_szero) int r; CT(r = eddsa_scalar_is_zero(c, P(1))); r_int(r); r_hex(o, 0); (void)ok; }
OPE(e_sclamp) CT(eddsa_scalar_clamp(c, o, P(1))); DONE(ESS); }
OPE(e_sadd) CT(eddsa_scalar_tweak_add(c, o, P(1), P(2))); DONE(ESS); }
OPE(e_smul) CT(eddsa_scalar_tweak_mul(c, o, P(1), P(2))); DONE(ESS); }
OPE(e_sred) CT(eddsa_scalar_reduce(c, o, P(1))); DONE(ESS); }
OPE(e_sneg) CT(eddsa_scalar_negate(c, o, P(1))); DONE(ESS); }
OPE(e_sinv) CT(eddsa_scalar_invert(c, o, P(1))); DONE(ESS); }
OPE(e_sign) CT(eddsa_sign(c, o, P(2), L(2), P(1), (int)I(3), P(4), L(4))); DONE(2 * EUS); }
OPE(e_signs) CT(eddsa_sign_with_scalar(c, o, P(3), L(3), P(1), P(2), (int)I(4), P(5), L(5))); DONE(2 * EUS); }
OPE(e_signa) CT(eddsa_sign_tweak_add(c, o, P(3), L(3), P(1), P(2), (int)I(4), P(5), L(5))); DONE(2 * EUS); }
OPE(e_signm) CT(eddsa_sign_tweak_mul(c, o, P(3), L(3), P(1), P(2), (int)I(4), P(5), L(5))); DONE(2 * EUS); }
OPE(e_derive) CT(ok = eddsa_derive(c, o, P(2), P(1))); DONE(EUS); }
OPE(e_derives) CT(ok = eddsa_derive_with_scalar(c, o, P(2), P(1))); DONE(EUS); }

OPE(e_rand) CT(edwards_curve_randomize(c, P(1))); DONE(0); }

OPE(r_create) CT(ok = ristretto_pubkey_create(c, o, P(1))); DONE(edwards_curve_field_size(c)); }
OPE(r_derive) CT(ok = ristretto_derive(c, o, P(2), P(1))); DONE(edwards_curve_field_size(c)); }
OPE(r_uniform) CT(ristretto_privkey_from_uniform(c, o, P(1))); DONE(ESS); }
OPE(r_verify) CT(ok = ristretto_privkey_verify(c, P(1))); DONE(0); }
OPE(r_tadd) CT(ok = ristretto_privkey_tweak_add(c, o, P(1), P(2))); DONE(ESS); }
OPE(r_tmul) CT(ok = ristretto_privkey_tweak_mul(c, o, P(1), P(2))); DONE(ESS); }
OPE(r_neg) CT(ok = ristretto_privkey_negate(c, o, P(1))); DONE(ESS); }
OPE(r_inv) CT(ok = ristretto_privkey_invert(c, o, P(1))); DONE(ESS); }

/* authenticated decryption */
static void a_poly(void) {
  poly1305_t p; unsigned char t[16]; O1;
  CT(poly1305_init(&p, P(0)); poly1305_update(&p, P(1), L(1)); poly1305_final(&p, t));
  memcpy(o, t, 16); DONE(16);
}
static void a_box(void) {
  O1;
  CT(ok = secretbox_open(o, P(2), L(2), P(0), P(1)));
  DONE(L(2) - 16);
}
static const struct { const char *n; cipher_id_t id; } CI[] = {
  {"aes128", CIPHER_AES128}, {"aes256", CIPHER_AES256}, {"des", CIPHER_DES}, {"serpent128", CIPHER_SERPENT128}, {NULL, 0}};
static const struct { const char *n; mode_id_t id; } MI[] = {
  {"gcm", CIPHER_MODE_GCM}, {"ccm", CIPHER_MODE_CCM}, {"eax", CIPHER_MODE_EAX}, {"cbc", CIPHER_MODE_CBC}, {"ecb", CIPHER_MODE_ECB}, {NULL, 0}};
/* cipher, mode, key, iv, additional data, ciphertext, tag: only the verdict is watched */
static void a_open(void) {
  cipher_stream_t z; int i, j; size_t a, b; O1;
  for (i = 0; strcmp(CI[i].n, S(0)); i++);
  for (j = 0; strcmp(MI[j].n, S(1)); j++);
  if (!cipher_stream_init(&z, CI[i].id, MI[j].id, 0, P(2), L(2), P(3), L(3))) die("init");
  if (strcmp(S(1), "ccm") == 0) {
    if (!cipher_stream_set_ccm(&z, L(5), L(6), P(4), L(4))) die("ccm");
  } else if (!cipher_stream_set_aad(&z, P(4), L(4))) die("aad");
  if (!cipher_stream_set_tag(&z, P(6), L(6))) die("tag");
  cipher_stream_update(&z, o, &a, P(5), L(5));
  CT(ok = cipher_stream_final(&z, o + a, &b));
  DONE(a + b);
}
/* the matching tags, not watched */
static void a_seal(void) {
  cipher_stream_t z; int i, j; size_t a, b; unsigned char t[16]; size_t tl; O1;
  for (i = 0; strcmp(CI[i].n, S(0)); i++);
  for (j = 0; strcmp(MI[j].n, S(1)); j++);
  if (!cipher_stream_init(&z, CI[i].id, MI[j].id, 1, P(2), L(2), P(3), L(3))) die("init");
  if (strcmp(S(1), "ccm") == 0) {
    if (!cipher_stream_set_ccm(&z, L(5), 16, P(4), L(4))) die("ccm");
  } else if (!cipher_stream_set_aad(&z, P(4), L(4))) die("aad");
  cipher_stream_update(&z, o, &a, P(5), L(5));
  if (!cipher_stream_final(&z, o + a, &b) || !cipher_stream_get_tag(&z, t, &tl)) die("seal");
  r_hex(o, a + b);
  r_hex(t, tl);
  (void)ok;
}
static void a_boxseal(void) { O1; secretbox_seal(o, P(2), L(2), P(0), P(1)); r_hex(o, L(2) + 16); (void)ok; }
static void a_chacha(void) {
  chacha20_t z; O1;
  CT(chacha20_init(&z, P(0), L(0), P(1), L(1), 0); chacha20_crypt(&z, o, P(2), L(2)));
  DONE(L(2));
}
static void a_salsa(void) {
  salsa20_t z; O1;
  CT(salsa20_init(&z, P(0), L(0), P(1), L(1), 0); salsa20_crypt(&z, o, P(2), L(2)));
  DONE(L(2));
}
static const struct { const char *n; hash_id_t id; size_t len; } HI[] = {
  {"sha256", HASH_SHA256, 32}, {"sha512", HASH_SHA512, 64}, {"sha1", HASH_SHA1, 20}, {"shake256", HASH_SHAKE256, 32},
  {"blake2b512", HASH_BLAKE2B_512, 64}, {"sha3_256", HASH_SHA3_256, 32}, {NULL, 0, 0}};
static int hfind(const char *s) { int i; for (i = 0; strcmp(HI[i].n, s); i++); return i; }
static void a_hmac(void) {
  hmac_t h; int i = hfind(S(0)); O1;
  CT(hmac_init(&h, HI[i].id, P(1), L(1)); hmac_update(&h, P(2), L(2)); hmac_final(&h, o));
  DONE(HI[i].len);
}

/* limbs */
static mp_limb_t *limbs(int k, int extra) {
  size_t b = sizeof(mp_limb_t), n = L(k) / b;
  mp_limb_t *z = (mp_limb_t *)obuf((n + extra) * b);
  memset(z, 0, (n + extra) * b);
  mpn_import(z, n, P(k), n * b, -1);
  return z;
}
#define NL ((mp_size_t)(L(0) / sizeof(mp_limb_t)))
static void l_out(const mp_limb_t *z, mp_size_t n) {
  unsigned char *o = obuf(n * sizeof(mp_limb_t));
  mpn_export(o, n * sizeof(mp_limb_t), z, n, -1);
  r_int(1);
  r_hex(o, n * sizeof(mp_limb_t));
}
#define L2 mp_limb_t *x = limbs(0, 1), *y = limbs(1, 1); mp_size_t n = NL
static void l_select(void) { L2; mp_limb_t *z = limbs(0, 0); CT(mpn_cnd_select(z, x, y, n, (mp_limb_t)P(2)[0])); l_out(z, n); }
static void l_swap(void) { L2; CT(mpn_cnd_swap(x, y, n, (mp_limb_t)P(2)[0])); l_out(x, n); }
static void l_zero(void) { L2; (void)y; CT(mpn_cnd_zero(x, x, n, (mp_limb_t)P(2)[0])); l_out(x, n); }
static void l_cadd(void) { L2; CT(x[n] = mpn_cnd_add_n(x, x, y, n, (mp_limb_t)P(2)[0])); l_out(x, n + 1); }
static void l_csub(void) { L2; CT(x[n] = mpn_cnd_sub_n(x, x, y, n, (mp_limb_t)P(2)[0])); l_out(x, n + 1); }
static void l_cneg(void) { L2; (void)y; CT(x[n] = mpn_cnd_neg(x, x, n, (mp_limb_t)P(2)[0])); l_out(x, n + 1); }
static void l_sadd(void) { L2; CT(x[n] = mpn_sec_add(x, x, n, y, n / 2 + 1)); l_out(x, n + 1); }
static void l_ssub(void) { L2; CT(x[n] = mpn_sec_sub(x, x, n, y, n / 2 + 1)); l_out(x, n + 1); }
static void l_sadd1(void) { L2; CT(x[n] = mpn_sec_add_1(x, x, n, y[0])); l_out(x, n + 1); }
static void l_ssub1(void) { L2; CT(x[n] = mpn_sec_sub_1(x, x, n, y[0])); l_out(x, n + 1); }
static void l_tab(void) {
  /* entries, index: L(0) bytes hold 8 entries */
  mp_limb_t *t = limbs(0, 0); mp_size_t n = NL / 8; mp_limb_t *z = (mp_limb_t *)obuf(n * sizeof(*z));
  memset(z, 0, n * sizeof(*z));
  CT(mpn_sec_tabselect(z, t, n, 8, P(1)[0] & 7)); l_out(z, n);
}
static void l_pred(void) {
  L2; int r = 0;
  CT(r |= mpn_sec_zero_p(x, n); r |= mpn_sec_equal_p(x, y, n) << 1; r |= mpn_sec_lt_p(x, y, n) << 2;
     r |= mpn_sec_lte_p(x, y, n) << 3; r |= mpn_sec_gt_p(x, y, n) << 4; r |= mpn_sec_gte_p(x, y, n) << 5;
     r |= mpn_sec_cmp(x, y, n) << 6);
  (void)r; r_int(1); r_hex("", 0);
}
/* base, exponent, modulus (odd), all of the same size */
static void l_powm(void) {
  mp_limb_t *x = limbs(0, 0), *y = limbs(1, 0), *m = limbs(2, 0), *s; mp_size_t n = NL, yn = L(1) / sizeof(*x);
  mp_limb_t *z = (mp_limb_t *)obuf(n * sizeof(*z));
  s = (mp_limb_t *)obuf(MPN_SEC_POWM_ITCH(n) * sizeof(*s));
  CT(mpn_sec_powm(z, x, n, y, yn, m, n, s)); l_out(z, n);
}
static void l_inv(void) {
  mp_limb_t *x = limbs(0, 0), *m = limbs(1, 0), *s; mp_size_t n = NL; int r;
  mp_limb_t *z = (mp_limb_t *)obuf(n * sizeof(*z));
  memset(z, 0, n * sizeof(*z));
  s = (mp_limb_t *)obuf(MPN_SEC_INVERT_ITCH(n) * sizeof(*s));
  CT(r = mpn_sec_invert_n(z, x, m, n, s)); (void)r; l_out(z, n);
}

/* RSA and DSA: private key, message, entropy */
static void k_dec(void) { O1; CT(ok = rsa_decrypt(o, &n, P(1), L(1), P(0), L(0), P(2))); DONE(n); }
static void k_deckey(void) { O1; n = (size_t)I(3); memset(o, 0x55, n); CT(ok = rsa_decrypt_key(o, n, P(1), L(1), P(0), L(0), P(2))); r_int(1); r_hex(o, 0); }
static void k_decoaep(void) { O1; CT(ok = rsa_decrypt_oaep(o, &n, HASH_SHA1, P(1), L(1), P(0), L(0), P(2), L(2), P(3))); DONE(n); }
static void k_sign(void) { O1; CT(ok = rsa_sign(o, &n, HASH_SHA256, P(1), L(1), P(0), L(0), P(2))); DONE(n); }
static void k_dsign(void) { O1; CT(ok = dsa_sign(o, &n, P(1), L(1), P(0), L(0), P(2))); DONE(n); }
static void k_dderive(void) { O1; CT(ok = dsa_derive(o, &n, P(1), L(1), P(0), L(0))); DONE(n); }

/* a leak of each kind, to show that the observer sees it */
int leak_branch(const unsigned char *x);
int leak_index(const unsigned char *x);
int leak_memcmp(const unsigned char *x, const unsigned char *y, size_t n);
static void z_branch(void) { int r; CT(r = leak_branch(P(0))); r_int(1); r_hex("", 0); (void)r; }
static void z_index(void) { int r; CT(r = leak_index(P(0))); r_int(1); r_hex("", 0); (void)r; }
static void z_memcmp(void) { int r; CT(r = leak_memcmp(P(0), P(1), L(0))); r_int(1); r_hex("", 0); (void)r; }

#define T(x) {#x, x}
TABLE(ops) = {
  T(u_equal), T(u_cmp), T(u_xor), T(u_xor3), T(u_unpad),
  T(w_create), T(w_verify), T(w_export), T(w_import), T(w_gen), T(w_tadd), T(w_tmul), T(w_neg), T(w_inv), T(w_derive), T(w_sign), T(w_bsign),
  T(w_xcreate), T(w_xsign), T(w_xderive), T(w_xtadd), T(w_xtmul), T(w_xinv), T(w_xexport), T(w_rand),
  T(m_create), T(m_derive), T(m_verify), T(m_gen), T(m_import),
  T(e_create), T(e_expand), T(e_convert), T(e_fromsc), T(e_sverify), T(e_szero), T(e_sclamp), T(e_sadd), T(e_smul), T(e_sred), T(e_sneg), T(e_sinv),
  T(e_sign), T(e_signs), T(e_signa), T(e_signm), T(e_derive), T(e_derives), T(e_rand),
  T(r_create), T(r_derive), T(r_uniform), T(r_verify), T(r_tadd), T(r_tmul), T(r_neg), T(r_inv),
  T(a_poly), T(a_box), T(a_open), T(a_seal), T(a_boxseal), T(a_chacha), T(a_salsa), T(a_hmac),
  T(l_select), T(l_swap), T(l_zero), T(l_cadd), T(l_csub), T(l_cneg), T(l_sadd), T(l_ssub), T(l_sadd1), T(l_ssub1), T(l_tab), T(l_pred), T(l_powm), T(l_inv),
  T(k_dec), T(k_deckey), T(k_decoaep), T(k_sign), T(k_dsign), T(k_dderive),
  T(z_branch), T(z_index), T(z_memcmp), END
};
__attribute__((constructor)) static void init(void) {
  int i;
  add_ops(ops);
  unsigned char ent[32];
  memset(ent, 0x3c, 32);
  for (i = 0; i < 12; i++) W[i] = wei_curve_create((wei_curve_id_t)(i % 6));
  for (i = 6; i < 12; i++) wei_curve_randomize(W[i], ent);
  for (i = 0; i < 2; i++) M[i] = mont_curve_create((mont_curve_id_t)i);
  for (i = 0; i < 6; i++) E[i] = edwards_curve_create((edwards_curve_id_t)(i % 3));
  for (i = 3; i < 6; i++) edwards_curve_randomize(E[i], ent);
}
