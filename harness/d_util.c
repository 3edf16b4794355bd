#include "drv.h"
#include <torsion/mac.h>
#include <torsion/util.h>

static int sgn(int x) { return (x > 0) - (x < 0); }
static uint64_t u64(int k) {
  uint64_t v = 0;
  size_t i;
  for (i = 0; i < L(k); i++) v = v << 8 | P(k)[i];
  return v;
}
static void r_word(uint64_t v, int n) {
  unsigned char b[8];
  int i;
  for (i = 0; i < n; i++) b[i] = (unsigned char)(v >> 8 * (n - 1 - i));
  r_hex(b, (size_t)n);
}
/* Copy of argument k ending exactly at the end of an allocation, starting at offset off in it. */
static unsigned char *at(int k, size_t off) {
  unsigned char *p = obuf(L(k) + off);
  if (L(k)) memcpy(p + off, P(k), L(k));
  return p + off;
}
static void ut_zero(void) {
  unsigned char *p = at(0, 0);
  torsion_memzero(p + I(1), (size_t)I(2));
  r_hex(p, L(0));
}
static void ut_cmp(void) {
  r_int(sgn(torsion_memcmp(P(0), P(1), L(0))));
  r_int(sgn(torsion_memcmp_var(P(0), P(1), L(0))));
  r_int(torsion_memequal(P(0), P(1), L(0)));
}
static void ut_cmps(void) {
  unsigned char *y = at(0, 3);
  char t[16];
  int c;
  for (c = 0; c < 256; c++) {
    int a, b;
    y[I(1)] = (unsigned char)c;
    a = sgn(torsion_memcmp(P(0), y, L(0)));
    b = sgn(torsion_memcmp_var(P(0), y, L(0)));
    if (a != b) r_str("differ");
    else { sprintf(t, "%d%d", a, torsion_memequal(P(0), y, L(0))); r_str(t); }
  }
}
static void ut_xor(void) {
  unsigned char *z = at(0, 0);
  torsion_memxor(z + I(1), P(2), L(2));
  r_hex(z, L(0));
}
static void ut_xor3(void) {
  unsigned char *z = at(0, 0);
  torsion_memxor3(z + I(1), P(2), P(3), L(2));
  r_hex(z, L(0));
}
static void ut_xor3a(void) {
  unsigned char *z = at(0, 1), *y = at(1, 2);
  torsion_memxor3(z, z, P(1), L(0));
  r_hex(z, L(0));
  torsion_memxor3(y, P(0), y, L(0));
  r_hex(y, L(0));
}
static void ut_murmur(void) { r_word(murmur3_sum(at(0, (size_t)I(1)), L(0), (uint32_t)u64(2)), 4); }
static void ut_tweak(void) { r_word(murmur3_tweak(P(0), L(0), (uint32_t)u64(1), (uint32_t)u64(2)), 4); }
static void ut_sip(void) { r_word(siphash_sum(at(0, (size_t)I(1)), L(0), P(2)), 8); }
static void ut_sipmod(void) { r_word(siphash_mod(P(0), L(0), P(1), u64(2)), 8); }
static void ut_sip128(void) { r_word(siphash128_sum(u64(0), P(1)), 8); }
static void ut_sip256(void) { r_word(siphash256_sum(u64(0), P(1)), 8); }
TABLE(ops) = {
  {"ut_zero", ut_zero}, {"ut_cmp", ut_cmp}, {"ut_cmps", ut_cmps}, {"ut_xor", ut_xor}, {"ut_xor3", ut_xor3}, {"ut_xor3a", ut_xor3a},
  {"ut_murmur", ut_murmur}, {"ut_tweak", ut_tweak}, {"ut_sip", ut_sip}, {"ut_sipmod", ut_sipmod},
  {"ut_sip128", ut_sip128}, {"ut_sip256", ut_sip256}, END};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
