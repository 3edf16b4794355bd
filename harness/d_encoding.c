#include "drv.h"
#include <torsion/encoding.h>

static int is(const char *a, const char *b) { return !strcmp(a, b); }
/* Text argument as a string in an allocation of its exact size. */
static char *cstr(const unsigned char *p, size_t n) {
  char *s = (char *)obuf(n + 1);
  if (n) memcpy(s, p, n);
  s[n] = 0;
  return s;
}
static size_t esize(const char *v, size_t n, int pad) {
  if (is(v, "16")) return base16_encode_size(n);
  if (is(v, "16le")) return base16le_encode_size(n);
  if (is(v, "32")) return base32_encode_size(n, pad);
  if (is(v, "32hex")) return base32hex_encode_size(n, pad);
  if (is(v, "64")) return base64_encode_size(n);
  if (is(v, "64url")) return base64url_encode_size(n);
  return BASE58_ENCODE_SIZE(n);
}
static size_t dsize(const char *v, const char *s, size_t n) {
  if (is(v, "16")) return base16_decode_size(n);
  if (is(v, "16le")) return base16le_decode_size(n);
  if (is(v, "32")) return base32_decode_size(s, n);
  if (is(v, "32hex")) return base32hex_decode_size(s, n);
  if (is(v, "64")) return base64_decode_size(s, n);
  if (is(v, "64url")) return base64url_decode_size(s, n);
  return BASE58_DECODE_SIZE(n);
}
static int enc(const char *v, char *d, size_t *dn, const unsigned char *s, size_t n, int pad) {
  if (is(v, "16")) base16_encode(d, dn, s, n);
  else if (is(v, "16le")) base16le_encode(d, dn, s, n);
  else if (is(v, "32")) base32_encode(d, dn, s, n, pad);
  else if (is(v, "32hex")) base32hex_encode(d, dn, s, n, pad);
  else if (is(v, "64")) base64_encode(d, dn, s, n);
  else if (is(v, "64url")) base64url_encode(d, dn, s, n);
  else return base58_encode(d, dn, s, n);
  return 1;
}
static int dec(const char *v, unsigned char *d, size_t *dn, const char *s, size_t n, int pad) {
  if (is(v, "16")) return base16_decode(d, dn, s, n);
  if (is(v, "16le")) return base16le_decode(d, dn, s, n);
  if (is(v, "32")) return base32_decode(d, dn, s, n, pad);
  if (is(v, "32hex")) return base32hex_decode(d, dn, s, n, pad);
  if (is(v, "64")) return base64_decode(d, dn, s, n);
  if (is(v, "64url")) return base64url_decode(d, dn, s, n);
  return base58_decode(d, dn, s, n);
}
static int tst(const char *v, const char *s, size_t n, int pad) {
  if (is(v, "16")) return base16_test(s, n);
  if (is(v, "16le")) return base16le_test(s, n);
  if (is(v, "32")) return base32_test(s, n, pad);
  if (is(v, "32hex")) return base32hex_test(s, n, pad);
  if (is(v, "64")) return base64_test(s, n);
  if (is(v, "64url")) return base64url_test(s, n);
  return base58_test(s, n);
}
static void r_txt(const void *p, size_t n) {
  const unsigned char *b = p;
  char *t = (char *)obuf(2 * n + 2);
  size_t i;
  for (i = 0; i < n; i++) sprintf(t + 2 * i, "%02x", b[i]);
  t[2 * n] = '.'; t[2 * n + 1] = 0;
  r_str(t);
}
static void ec_enc(void) {
  const char *v = S(0);
  size_t n = esize(v, L(2), (int)I(1)), dn = 0;
  char *d = (char *)obuf(n + 1);
  if (!enc(v, d, &dn, P(2), L(2), (int)I(1))) { r_str("failed"); return; }
  if (d[dn] != 0) { r_str("unterminated"); return; }
  r_hex(d, dn);
  r_int((long long)dn);
  r_int((long long)(is(v, "58") ? dn : n));
}
/* Returns 1 and the bytes in *d; the buffer has the advertised size. */
static int decode(const char *v, const char *s, size_t n, int pad, unsigned char **d, size_t *dn) {
  size_t m = dsize(v, s, n);
  *d = obuf(m);
  *dn = 0;
  return dec(v, *d, dn, s, n, pad);
}
static void ec_dec(void) {
  const char *s = (const char *)P(2);
  unsigned char *d;
  size_t dn;
  int ok = decode(S(0), s, L(2), (int)I(1), &d, &dn);
  if (ok && !is(S(0), "58") && dn != dsize(S(0), s, L(2))) { r_str("decode-size-differs"); return; }
  if (ok) r_txt(d, dn); else r_str("-");
  r_int(tst(S(0), s, L(2), (int)I(1)));
}
static void ec_scan(void) {
  char *s = (char *)obuf(L(2));
  size_t dn;
  unsigned char *d;
  int c;
  if (L(2)) memcpy(s, P(2), L(2));
  for (c = 0; c < 256; c++) {
    int ok, t;
    s[I(3)] = (char)c;
    ok = decode(S(0), s, L(2), (int)I(1), &d, &dn);
    t = tst(S(0), s, L(2), (int)I(1));
    if (ok != t) r_str("test-disagrees");
    else if (ok) r_txt(d, dn);
    else r_str("-");
  }
}
static uint32_t u32(int k) { const unsigned char *p = P(k); return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static void b3_ser(void) {
  char *o = (char *)obuf(BECH32_MAX_SERIALIZE_SIZE + 1);
  if (bech32_serialize(o, cstr(P(0), L(0)), P(1), L(1), u32(2))) r_txt(o, strlen(o)); else r_str("-");
}
static void b3_des(void) {
  char *h = (char *)obuf(BECH32_MAX_HRP_SIZE + 1), *s = cstr(P(0), L(0));
  unsigned char *d = obuf(BECH32_MAX_DESERIALIZE_SIZE);
  size_t n = 0;
  if (bech32_deserialize(h, d, &n, s, u32(1))) { r_txt(h, strlen(h)); r_txt(d, n); } else r_str("-");
  r_int(bech32_is(s, u32(1)));
}
static void b3_enc(void) {
  char *o = (char *)obuf(BECH32_MAX_ENCODE_SIZE + 1);
  if (bech32_encode(o, cstr(P(0), L(0)), (unsigned int)I(1), P(2), L(2), u32(3))) r_txt(o, strlen(o)); else r_str("-");
}
static int b3_do(const char *s, uint32_t chk, int out) {
  char *h = (char *)obuf(BECH32_MAX_HRP_SIZE + 1);
  unsigned char *d = obuf(BECH32_MAX_DECODE_SIZE);
  size_t n = 0;
  unsigned int v = 0;
  int ok = bech32_decode(h, &v, d, &n, s, chk), t = bech32_test(s, chk);
  if (!out) return ok == t ? ok : 2;
  if (ok) { r_txt(h, strlen(h)); r_int(v); r_txt(d, n); } else r_str("-");
  r_int(t);
  return ok;
}
static void b3_dec(void) { b3_do(cstr(P(0), L(0)), u32(1), 1); }
static void b3_scan(void) {
  char *s = cstr(P(0), L(0));
  int c;
  for (c = 0; c < 256; c++) { s[I(2)] = (char)c; r_int(b3_do(s, u32(1), 0)); }
}
static void bx_conv(void) {
  size_t n = 0, f = (size_t)I(1), t = (size_t)I(2), m = (L(0) * f + (I(3) ? t - 1 : 0)) / t;
  unsigned char *o = obuf(m);
  if (bech32_convert_bits(o, &n, t, P(0), L(0), f, (int)I(3))) r_txt(o, n); else r_str("-");
  o = obuf(m);
  n = 0;
  if (cash32_convert_bits(o, &n, t, P(0), L(0), f, (int)I(3))) r_txt(o, n); else r_str("-");
}
static void c3_ser(void) {
  char *o = (char *)obuf(CASH32_MAX_SERIALIZE_SIZE + 1);
  if (cash32_serialize(o, cstr(P(0), L(0)), P(1), L(1))) r_txt(o, strlen(o)); else r_str("-");
}
static void c3_des(void) {
  char *h = (char *)obuf(CASH32_MAX_PREFIX_SIZE + 1), *s = cstr(P(0), L(0)), *f = cstr(P(1), L(1));
  unsigned char *d = obuf(CASH32_MAX_DESERIALIZE_SIZE);
  size_t n = 0;
  if (cash32_deserialize(h, d, &n, s, f)) { r_txt(h, strlen(h)); r_txt(d, n); } else r_str("-");
  r_int(cash32_is(s, f));
}
static void c3_enc(void) {
  char *o = (char *)obuf(CASH32_MAX_ENCODE_SIZE + 1);
  if (cash32_encode(o, cstr(P(0), L(0)), (unsigned int)I(1), P(2), L(2))) r_txt(o, strlen(o)); else r_str("-");
}
static int c3_do(const char *s, const char *f, int out) {
  unsigned char *d = obuf(CASH32_MAX_DECODE_SIZE);
  size_t n = 0;
  unsigned int v = 0;
  int ok = cash32_decode(&v, d, &n, s, f), t = cash32_test(s, f);
  if (!out) return ok == t ? ok : 2;
  if (ok) { r_int(v); r_txt(d, n); } else r_str("-");
  r_int(t);
  return ok;
}
static void c3_dec(void) { c3_do(cstr(P(0), L(0)), cstr(P(1), L(1)), 1); }
static void c3_scan(void) {
  char *s = cstr(P(0), L(0)), *f = cstr(P(1), L(1));
  int c;
  for (c = 0; c < 256; c++) { s[I(2)] = (char)c; r_int(c3_do(s, f, 0)); }
}
TABLE(ops) = {
  {"ec_enc", ec_enc}, {"ec_dec", ec_dec}, {"ec_scan", ec_scan},
  {"b3_ser", b3_ser}, {"b3_des", b3_des}, {"b3_enc", b3_enc}, {"b3_dec", b3_dec}, {"b3_scan", b3_scan}, {"bx_conv", bx_conv},
  {"c3_ser", c3_ser}, {"c3_des", c3_des}, {"c3_enc", c3_enc}, {"c3_dec", c3_dec}, {"c3_scan", c3_scan}, END};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
