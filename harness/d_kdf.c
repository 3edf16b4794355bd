#include "drv.h"
#include <torsion/hash.h>
#include <torsion/kdf.h>

int hash_by_name(const char *name);
static hash_id_t H(int k) { return (hash_id_t)hash_by_name(S(k)); }
static char *cstr(int k) {
  char *s = (char *)obuf(L(k) + 1);
  if (L(k)) memcpy(s, P(k), L(k));
  s[L(k)] = 0;
  return s;
}
static void r_txt(int ok, const void *p, size_t n) {
  const unsigned char *b = p;
  char *t = (char *)obuf(2 * n + 2);
  size_t i;
  if (!ok) { r_str("-"); return; }
  for (i = 0; i < n; i++) sprintf(t + 2 * i, "%02x", b[i]);
  t[2 * n] = '.'; t[2 * n + 1] = 0;
  r_str(t);
}
static uint64_t u64(int k) {
  uint64_t v = 0;
  size_t i;
  for (i = 0; i < L(k); i++) v = v << 8 | P(k)[i];
  return v;
}
static void kd_extract(void) {
  size_t n = hash_output_size(H(0));
  unsigned char *o = obuf(n);
  r_txt(hkdf_extract(o, H(0), P(1), L(1), P(2), L(2)), o, n);
}
static void kd_expand(void) {
  size_t n = (size_t)I(3);
  unsigned char *o = obuf(n);
  r_txt(hkdf_expand(o, H(0), P(1), P(2), L(2), n), o, n);
}
static void kd_pbkdf2(void) {
  size_t n = (size_t)I(4);
  unsigned char *o = obuf(n);
  r_txt(pbkdf2_derive(o, H(0), P(1), L(1), P(2), L(2), (uint32_t)I(3), n), o, n);
}
static void kd_eb2k(void) {
  size_t n = (size_t)I(3), m = (size_t)I(4);
  unsigned char *o = obuf(n), *v = obuf(m);
  int ok = eb2k_derive(o, v, H(0), P(1), L(1), P(2), L(2), n, m);
  r_txt(ok, o, n);
  if (ok) r_txt(ok, v, m);
}
static void kd_pgp0(void) {
  size_t n = (size_t)I(2);
  unsigned char *o = obuf(n);
  r_txt(pgpdf_derive_simple(o, H(0), P(1), L(1), n), o, n);
}
static void kd_pgp1(void) {
  size_t n = (size_t)I(3);
  unsigned char *o = obuf(n);
  r_txt(pgpdf_derive_salted(o, H(0), P(1), L(1), P(2), L(2), n), o, n);
}
static void kd_pgp2(void) {
  size_t n = (size_t)I(4);
  unsigned char *o = obuf(n);
  r_txt(pgpdf_derive_iterated(o, H(0), P(1), L(1), P(2), L(2), (size_t)I(3), n), o, n);
}
static void kd_scrypt(void) {
  size_t n = (size_t)I(5);
  unsigned char *o = obuf(n);
  r_txt(scrypt_derive(o, P(0), L(0), P(1), L(1), u64(2), (uint32_t)u64(3), (uint32_t)u64(4), n), o, n);
}
#define REC 60
static void kd_bcgen(void) {
  char *o = (char *)obuf(REC + 1);
  int ok = bcrypt_generate(o, P(0), L(0), P(1), (unsigned int)I(2), (char)I(3));
  r_txt(ok, o, ok ? strlen(o) : 0);
}
static void kd_bcver(void) { r_int(bcrypt_verify(P(0), L(0), cstr(1))); }
static void kd_bchash(void) {
  char *o = (char *)obuf(REC + 1);
  int ok = bcrypt_hash(o, cstr(0), P(1), (unsigned int)I(2), (char)I(3));
  r_txt(ok, o, ok ? strlen(o) : 0);
}
static void kd_bccheck(void) { r_int(bcrypt_check(cstr(0), cstr(1))); }
static void kd_bcpbkdf(void) {
  size_t n = (size_t)I(3);
  unsigned char *o = obuf(n);
  r_txt(bcrypt_pbkdf(o, P(0), L(0), P(1), L(1), (unsigned int)I(2), n), o, n);
}
static void kd_badhash(void) {
  unsigned char *o = obuf(64);
  hash_id_t h = (hash_id_t)I(0);
  r_int(hkdf_extract(o, h, o, 8, o, 8));
  r_int(hkdf_expand(o, h, o, o, 8, 16));
  r_int(pbkdf2_derive(o, h, o, 8, o, 8, 1, 16));
  r_int(eb2k_derive(o, o, h, o, 8, o, 8, 16, 16));
  r_int(pgpdf_derive_salted(o, h, o, 8, o, 8, 16));
  r_int(pgpdf_derive_iterated(o, h, o, 8, o, 8, 100, 16));
}
TABLE(ops) = {
  {"kd_extract", kd_extract}, {"kd_expand", kd_expand}, {"kd_pbkdf2", kd_pbkdf2}, {"kd_eb2k", kd_eb2k},
  {"kd_pgp0", kd_pgp0}, {"kd_pgp1", kd_pgp1}, {"kd_pgp2", kd_pgp2}, {"kd_scrypt", kd_scrypt}, {"kd_bcgen", kd_bcgen},
  {"kd_bcver", kd_bcver}, {"kd_bchash", kd_bchash}, {"kd_bccheck", kd_bccheck}, {"kd_bcpbkdf", kd_bcpbkdf},
  {"kd_badhash", kd_badhash}, END};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
