#include "drv.h"
#include <torsion/hash.h>
#include <torsion/rsa.h>

int hash_by_name(const char *name);
static hash_id_t H(int k) {
  if (strncmp(S(k), "bad", 3) == 0) return (hash_id_t)atoi(S(k) + 3);
  if (strcmp(S(k), "none") == 0) return HASH_NONE;
  return (hash_id_t)hash_by_name(S(k));
}
static void r_txt(int ok, const void *p, size_t n) {
  const unsigned char *b = p;
  char *t;
  size_t i;
  if (!ok) { r_str("-"); return; }
  t = (char *)obuf(2 * n + 2);
  for (i = 0; i < n; i++) sprintf(t + 2 * i, "%02x", b[i]);
  t[2 * n] = '.'; t[2 * n + 1] = 0;
  r_str(t);
}
static unsigned char *filled(size_t n) {
  unsigned char *o = obuf(n);
  memset(o, 0xa5, n);
  return o;
}
/* after a refused decryption the output holds what was there or zeros */
static void r_clean(const unsigned char *o, size_t n) {
  size_t i;
  for (i = 0; i < n; i++)
    if (o[i] != 0xa5 && o[i] != 0) { r_str("data"); return; }
  r_str("clean");
}
static void rs_gen(void) {
  unsigned char *o = obuf(RSA_MAX_PRIV_SIZE);
  size_t n = 0;
  uint64_t e = strtoull(S(1), NULL, 16);
  int ok = rsa_privkey_generate(o, &n, (unsigned int)I(0), e, P(2));
  r_txt(ok, o, n);
}
static void rs_privbits(void) { r_int(rsa_privkey_bits(P(0), L(0))); r_int(rsa_privkey_verify(P(0), L(0))); }
static void rs_pubbits(void) { r_int(rsa_pubkey_bits(P(0), L(0))); r_int(rsa_pubkey_verify(P(0), L(0))); }
static void rs_privimp(void) {
  unsigned char *o = obuf(RSA_MAX_PRIV_SIZE);
  size_t n = 0;
  int ok = rsa_privkey_import(o, &n, P(0), L(0), L(1) ? P(1) : NULL);
  r_txt(ok, o, n);
}
#define CONV(name, f, max) static void name(void) { \
  unsigned char *o = obuf(max); size_t n = 0; int ok = f(o, &n, P(0), L(0)); r_txt(ok, o, n); }
CONV(rs_privexp, rsa_privkey_export, RSA_MAX_PRIV_SIZE)
CONV(rs_pubcreate, rsa_pubkey_create, RSA_MAX_PUB_SIZE)
CONV(rs_pubimp, rsa_pubkey_import, RSA_MAX_PUB_SIZE)
CONV(rs_pubexp, rsa_pubkey_export, RSA_MAX_PUB_SIZE)
static void rs_sign(void) {
  unsigned char *o = obuf(RSA_MAX_MOD_SIZE);
  size_t n = 0;
  int ok = rsa_sign(o, &n, H(0), P(1), L(1), P(2), L(2), P(3));
  r_txt(ok, o, n);
}
static void rs_verify(void) { r_int(rsa_verify(H(0), P(1), L(1), P(2), L(2), P(3), L(3))); }
static void rs_signpss(void) {
  unsigned char *o = obuf(RSA_MAX_MOD_SIZE);
  size_t n = 0;
  int ok = rsa_sign_pss(o, &n, H(0), P(1), L(1), P(2), L(2), (size_t)I(3), P(4));
  r_txt(ok, o, n);
}
static void rs_verifypss(void) { r_int(rsa_verify_pss(H(0), P(1), L(1), P(2), L(2), P(3), L(3), (size_t)I(4))); }
static void rs_enc(void) {
  unsigned char *o = obuf(RSA_MAX_MOD_SIZE);
  size_t n = 0;
  int ok = rsa_encrypt(o, &n, P(0), L(0), P(1), L(1), P(2));
  r_txt(ok, o, n);
}
static void rs_dec(void) {
  unsigned char *o = filled(RSA_MAX_MOD_SIZE);
  size_t n = 0;
  int ok = rsa_decrypt(o, &n, P(0), L(0), P(1), L(1), P(2));
  r_txt(ok, o, n);
  if (!ok) r_clean(o, RSA_MAX_MOD_SIZE);
}
static void rs_deckey(void) {
  size_t n = (size_t)I(1);
  unsigned char *o = filled(n);
  int ok = rsa_decrypt_key(o, n, P(0), L(0), P(2), L(2), P(3));
  r_txt(ok, o, n);
  if (!ok) r_clean(o, n);
}
static void rs_encoaep(void) {
  unsigned char *o = obuf(RSA_MAX_MOD_SIZE);
  size_t n = 0;
  int ok = rsa_encrypt_oaep(o, &n, H(0), P(1), L(1), P(2), L(2), P(3), L(3), P(4));
  r_txt(ok, o, n);
}
static void rs_decoaep(void) {
  unsigned char *o = filled(RSA_MAX_MOD_SIZE);
  size_t n = 0;
  int ok = rsa_decrypt_oaep(o, &n, H(0), P(1), L(1), P(2), L(2), P(3), L(3), P(4));
  r_txt(ok, o, n);
  if (!ok) r_clean(o, RSA_MAX_MOD_SIZE);
}
static void rs_veil(void) {
  unsigned char *o = obuf(RSA_MAX_MOD_SIZE + 1);
  size_t n = 0;
  int ok = rsa_veil(o, &n, P(0), L(0), (unsigned int)I(1), P(2), L(2), P(3));
  r_txt(ok, o, n);
}
static void rs_unveil(void) {
  unsigned char *o = obuf(RSA_MAX_MOD_SIZE);
  size_t n = 0;
  int ok = rsa_unveil(o, &n, P(0), L(0), (unsigned int)I(1), P(2), L(2));
  r_txt(ok, o, n);
}
TABLE(ops) = {
  {"rs_gen", rs_gen}, {"rs_privbits", rs_privbits}, {"rs_pubbits", rs_pubbits}, {"rs_privimp", rs_privimp},
  {"rs_privexp", rs_privexp}, {"rs_pubcreate", rs_pubcreate}, {"rs_pubimp", rs_pubimp}, {"rs_pubexp", rs_pubexp},
  {"rs_sign", rs_sign}, {"rs_verify", rs_verify}, {"rs_signpss", rs_signpss}, {"rs_verifypss", rs_verifypss},
  {"rs_enc", rs_enc}, {"rs_dec", rs_dec}, {"rs_deckey", rs_deckey}, {"rs_encoaep", rs_encoaep}, {"rs_decoaep", rs_decoaep},
  {"rs_veil", rs_veil}, {"rs_unveil", rs_unveil}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
