#include "drv.h"
#include <torsion/mpi.h>

#define NREG 6
static struct mpz_s R[NREG];
static int inited;
#define Z(k) (&R[I(k)])

static void mz_reset(void) {
  int i;
  for (i = 0; i < NREG; i++) {
    if (inited) mpz_clear(&R[i]);
    mpz_init(&R[i]);
  }
  inited = 1;
}

/* big-endian magnitude to signed hexadecimal text */
static void r_mag(const unsigned char *p, size_t n, int neg) {
  char *t = (char *)obuf(2 * n + 3), *q = t;
  size_t i = 0;
  while (i < n && p[i] == 0) i++;
  if (i == n) { r_str("0"); return; }
  if (neg) *q++ = '-';
  q += sprintf(q, "%x", p[i++]);
  for (; i < n; i++) q += sprintf(q, "%02x", p[i]);
  r_str(t);
}
static void r_limb(mp_limb_t v) {
  char t[32];
  sprintf(t, "%llx", (unsigned long long)v);
  r_str(t);
}
static void r_long(mp_long_t v) {
  char t[32];
  if (v < 0) sprintf(t, "-%llx", -(unsigned long long)v);
  else sprintf(t, "%llx", (unsigned long long)v);
  r_str(t);
}
static void r_bits(mp_bits_t v) {
  char t[32];
  if (v == MP_BITS_MAX) { r_str("max"); return; }
  sprintf(t, "%ld", (long)v);
  r_str(t);
}
static void r_z(mpz_srcptr x) {
  mp_size_t n = x->size < 0 ? -x->size : x->size, i;
  unsigned char *b = obuf((size_t)n * MP_LIMB_BYTES + 1);
  int j;
  if (n > x->alloc || (n > 0 && x->limbs[n - 1] == 0)) { r_str("!unnormalised"); return; }
  for (i = 0; i < n; i++)
    for (j = 0; j < MP_LIMB_BYTES; j++)
      b[(n - i) * MP_LIMB_BYTES - 1 - j] = (unsigned char)(x->limbs[i] >> 8 * j);
  r_mag(b, (size_t)n * MP_LIMB_BYTES, x->size < 0);
}
static mp_limb_t U(int k) { return (mp_limb_t)strtoull((const char *)S(k), NULL, 16); }
static mp_long_t SI(int k) {
  const char *s = (const char *)S(k);
  if (*s == '-') return (mp_long_t)(0 - (unsigned long long)strtoull(s + 1, NULL, 16));
  return (mp_long_t)strtoull(s, NULL, 16);
}
static int sgn(int x) { return (x > 0) - (x < 0); }

static unsigned char rs;
static void rngf(void *out, size_t n, void *arg) {
  unsigned char *p = out;
  static unsigned long long x;
  if (rs) { x = rs * 0x9e3779b97f4a7c15ull; rs = 0; }
  (void)arg;
  while (n--) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    *p++ = (unsigned char)(x >> 56);
  }
}

/* registers: set <- limbs given big-endian with a sign */
static void mz_set(void) {
  mp_size_t n = (mp_size_t)((L(1) + MP_LIMB_BYTES - 1) / MP_LIMB_BYTES);
  mp_limb_t *p = mpz_limbs_write(Z(0), n ? n : 1);
  mp_size_t i;
  for (i = 0; i < n; i++) p[i] = 0;
  for (i = 0; i < (mp_size_t)L(1); i++)
    p[i / MP_LIMB_BYTES] |= (mp_limb_t)P(1)[L(1) - 1 - i] << 8 * (i % MP_LIMB_BYTES);
  mpz_limbs_finish(Z(0), I(2) ? -n : n);
  r_z(Z(0));
}
static const char *fn;
#define F(name) (strcmp(fn, #name) == 0)
#define NO fprintf(stderr, "unknown function %s\n", fn); exit(3)

static void mz_zxy(void) {
#define G(f) else if (F(f)) mpz_##f(Z(1), Z(2), Z(3))
  fn = S(0);
  if (0) ;
  G(add); G(sub); G(mul); G(addmul); G(submul); G(quo); G(rem); G(div); G(mod); G(divexact); G(divround);
  G(and); G(ior); G(xor); G(gcd); G(lcm);
  else if (F(invert)) r_int(mpz_invert(Z(1), Z(2), Z(3)));
  else if (F(sqrtm)) r_int(mpz_sqrtm(Z(1), Z(2), Z(3)));
  else if (F(remove)) r_bits(mpz_remove(Z(1), Z(2), Z(3)));
  else { NO; }
#undef G
  r_z(Z(1));
}
static void mz_zxu(void) {
#define G(f) else if (F(f)) mpz_##f(Z(1), Z(2), U(3))
#define GR(f) else if (F(f)) r_limb(mpz_##f(Z(1), Z(2), U(3)))
  fn = S(0);
  if (0) ;
  G(add_ui); G(sub_ui); G(mul_ui); G(addmul_ui); G(submul_ui); G(divexact_ui); G(divround_ui); G(pow_ui); G(ior_ui);
  G(xor_ui); G(lcm_ui); G(bin_ui);
  GR(quo_ui); GR(div_ui); GR(gcd_ui);
  else if (F(root)) r_int(mpz_root(Z(1), Z(2), U(3)));
  else if (F(ui_sub)) mpz_ui_sub(Z(1), U(3), Z(2));
  else { NO; }
#undef G
#undef GR
  r_z(Z(1));
}
static void mz_zxs(void) {
#define G(f) else if (F(f)) mpz_##f(Z(1), Z(2), SI(3))
#define GR(f) else if (F(f)) r_long(mpz_##f(Z(1), Z(2), SI(3)))
  fn = S(0);
  if (0) ;
  G(add_si); G(sub_si); G(mul_si); G(addmul_si); G(submul_si); G(divexact_si); G(divround_si); G(and_si); G(ior_si);
  G(xor_si);
  GR(quo_si); GR(div_si);
  else if (F(si_sub)) mpz_si_sub(Z(1), SI(3), Z(2));
  else { NO; }
#undef G
#undef GR
  r_z(Z(1));
}
static void mz_zx(void) {
#define G(f) else if (F(f)) mpz_##f(Z(1), Z(2))
  fn = S(0);
  if (0) ;
  G(set); G(sqr); G(sqrt); G(com); G(abs); G(neg);
  else if (F(roset)) { mpz_t t; mpz_roset(t, Z(2)); mpz_set(Z(1), t); }
  else if (F(init_set)) { mpz_t t; mpz_init_set(t, Z(2)); mpz_swap(Z(1), t); mpz_clear(t); }
  else if (F(inits)) { mpz_t t, u; mpz_inits(t, u, NULL); mpz_set(u, Z(2)); mpz_swap(t, u); mpz_set(Z(1), t); mpz_clears(t, u, NULL); }
  else if (F(inits2)) { mpz_t t, u; mpz_inits(t, u, NULL); mpz_set(u, Z(2)); mpz_swap(t, u); mpz_set(Z(1), t); mpz_cleanses(t, u, NULL); }
  else if (F(roinit)) {
    mpz_t t;
    mp_size_t n = (mp_size_t)mpz_size(Z(2));
    mpz_set(Z(1), mpz_roinit_n(t, mpz_limbs_read(Z(2)), mpz_sgn(Z(2)) < 0 ? -n : n));
  }
  else if (F(modify)) {
    mp_size_t n, i;
    mp_limb_t *p;
    int neg = mpz_sgn(Z(2)) < 0;
    mpz_set(Z(1), Z(2));
    n = (mp_size_t)mpz_size(Z(1));
    p = mpz_limbs_modify(Z(1), n + 3);
    for (i = n; i < n + 3; i++) p[i] = 0;
    mpz_limbs_finish(Z(1), neg ? -(n + 3) : n + 3);
  }
  else if (F(swap)) { mpz_swap(Z(1), Z(2)); r_z(Z(2)); }
  else { NO; }
#undef G
  r_z(Z(1));
}
static void mz_zxb(void) {
#define G(f) else if (F(f)) mpz_##f(Z(1), Z(2), I(3))
  fn = S(0);
  if (0) ;
  G(mul_2exp); G(quo_2exp); G(rem_2exp); G(div_2exp); G(mod_2exp);
  else { NO; }
#undef G
  r_z(Z(1));
}
static void mz_zb(void) {
#define G(f) else if (F(f)) mpz_##f(Z(1), I(2))
  fn = S(0);
  if (0) ;
  G(setbit); G(clrbit); G(combit);
  else { NO; }
#undef G
  r_z(Z(1));
}
static void mz_mulshift(void) { mpz_mulshift(Z(0), Z(1), Z(2), I(3)); r_z(Z(0)); }
/* two results; NULL for a negative index */
#define ZN(k) (I(k) < 0 ? NULL : Z(k))
static void mz_zzxy(void) {
  mpz_ptr q, r;
  fn = S(0);
  q = Z(1); r = Z(2);
  if (F(quorem)) mpz_quorem(q, r, Z(3), Z(4));
  else if (F(divmod)) mpz_divmod(q, r, Z(3), Z(4));
  else { NO; }
  r_z(q); r_z(r);
}
static void mz_zzx(void) { mpz_sqrtrem(Z(0), ZN(1), Z(2)); r_z(Z(0)); if (I(1) >= 0) r_z(Z(1)); }
static void mz_rootrem(void) { mpz_rootrem(Z(0), ZN(1), Z(2), U(3)); r_z(Z(0)); if (I(1) >= 0) r_z(Z(1)); }
static void mz_pxy(void) {
  fn = S(0);
  if (F(cmp)) r_int(sgn(mpz_cmp(Z(1), Z(2))));
  else if (F(cmpabs)) r_int(sgn(mpz_cmpabs(Z(1), Z(2))));
  else if (F(divisible_p)) r_int(mpz_divisible_p(Z(1), Z(2)));
  else if (F(hamdist)) r_bits(mpz_hamdist(Z(1), Z(2)));
  else if (F(jacobi)) r_int(mpz_jacobi(Z(1), Z(2)));
  else if (F(legendre)) r_int(mpz_legendre(Z(1), Z(2)));
  else if (F(kronecker)) r_int(mpz_kronecker(Z(1), Z(2)));
  else { NO; }
}
static void mz_pxu(void) {
  fn = S(0);
  if (F(cmp_ui)) r_int(sgn(mpz_cmp_ui(Z(1), U(2))));
  else if (F(cmpabs_ui)) r_int(sgn(mpz_cmpabs_ui(Z(1), U(2))));
  else if (F(rem_ui)) r_limb(mpz_rem_ui(Z(1), U(2)));
  else if (F(mod_ui)) r_limb(mpz_mod_ui(Z(1), U(2)));
  else if (F(divisible_ui_p)) r_int(mpz_divisible_ui_p(Z(1), U(2)));
  else if (F(and_ui)) r_limb(mpz_and_ui(Z(1), U(2)));
  else if (F(kronecker_ui)) r_int(mpz_kronecker_ui(Z(1), U(2)));
  else if (F(ui_kronecker)) r_int(mpz_ui_kronecker(U(2), Z(1)));
  else if (F(gcd_ui)) r_limb(mpz_gcd_ui(NULL, Z(1), U(2)));
  else if (F(lucas)) r_int(mpz_lucas_prime_p(Z(1), U(2)));
  else { NO; }
}
static void mz_pxs(void) {
  fn = S(0);
  if (F(cmp_si)) r_int(sgn(mpz_cmp_si(Z(1), SI(2))));
  else if (F(cmpabs_si)) r_int(sgn(mpz_cmpabs_si(Z(1), SI(2))));
  else if (F(rem_si)) r_long(mpz_rem_si(Z(1), SI(2)));
  else if (F(mod_si)) r_long(mpz_mod_si(Z(1), SI(2)));
  else if (F(kronecker_si)) r_int(mpz_kronecker_si(Z(1), SI(2)));
  else if (F(si_kronecker)) r_int(mpz_si_kronecker(SI(2), Z(1)));
  else { NO; }
}
static void mz_pxb(void) {
  fn = S(0);
  if (F(tstbit)) r_int(mpz_tstbit(Z(1), I(2)));
  else if (F(scan0)) r_bits(mpz_scan0(Z(1), I(2)));
  else if (F(scan1)) r_bits(mpz_scan1(Z(1), I(2)));
  else if (F(divisible_2exp_p)) r_int(mpz_divisible_2exp_p(Z(1), I(2)));
  else if (F(getlimbn)) { r_int(MP_LIMB_BYTES); r_limb(mpz_getlimbn(Z(1), I(2))); }
  else if (F(sizeinbase)) r_int((long)mpz_sizeinbase(Z(1), (int)I(2)));
  else { NO; }
}
static void mz_px(void) {
  fn = S(0);
  if (F(sgn)) r_int(mpz_sgn(Z(1)));
  else if (F(odd_p)) r_int(mpz_odd_p(Z(1)));
  else if (F(even_p)) r_int(mpz_even_p(Z(1)));
  else if (F(popcount)) r_bits(mpz_popcount(Z(1)));
  else if (F(ctz)) r_bits(mpz_ctz(Z(1)));
  else if (F(bitlen)) r_bits(mpz_bitlen(Z(1)));
  else if (F(bytelen)) r_int((long)mpz_bytelen(Z(1)));
  else if (F(perfect_square_p)) r_int(mpz_perfect_square_p(Z(1)));
  else if (F(perfect_power_p)) r_int(mpz_perfect_power_p(Z(1)));
  else if (F(get_compact)) r_limb(mpz_get_compact(Z(1)));
  else {
    r_int(MP_LIMB_BYTES);
    if (F(get_ui)) r_limb(mpz_get_ui(Z(1)));
    else if (F(get_si)) r_long(mpz_get_si(Z(1)));
    else if (F(fits_ui_p)) r_int(mpz_fits_ui_p(Z(1)));
    else if (F(fits_si_p)) r_int(mpz_fits_si_p(Z(1)));
    else if (F(size)) r_int((long)mpz_size(Z(1)));
    else { NO; }
  }
}
static void mz_congr(void) {
  fn = S(0);
  if (F(congruent_p)) r_int(mpz_congruent_p(Z(1), Z(2), Z(3)));
  else if (F(congruent_ui_p)) r_int(mpz_congruent_ui_p(Z(1), Z(2), U(3)));
  else if (F(congruent_2exp_p)) r_int(mpz_congruent_2exp_p(Z(1), Z(2), I(3)));
  else { NO; }
}
/* constants into a register */
static void mz_zu(void) {
#define G(f) else if (F(f)) mpz_##f(Z(1), U(2))
  fn = S(0);
  if (0) ;
  G(set_ui); G(set_compact); G(fac_ui); G(2fac_ui); G(primorial_ui); G(fib_ui); G(lucnum_ui);
  else if (F(set_si)) mpz_set_si(Z(1), SI(2));
  else if (F(init_set_compact)) { mpz_clear(Z(1)); mpz_init_set_compact(Z(1), U(2)); }
  else if (F(init_set_ui)) { mpz_clear(Z(1)); mpz_init_set_ui(Z(1), U(2)); }
  else if (F(init_set_si)) { mpz_clear(Z(1)); mpz_init_set_si(Z(1), SI(2)); }
  else { NO; }
#undef G
  r_z(Z(1));
}
static void mz_zuu(void) {
  fn = S(0);
  if (F(ui_pow_ui)) mpz_ui_pow_ui(Z(1), U(2), U(3));
  else if (F(mfac_uiui)) mpz_mfac_uiui(Z(1), U(2), U(3));
  else if (F(bin_uiui)) mpz_bin_uiui(Z(1), U(2), U(3));
  else if (F(bin_siui)) mpz_bin_siui(Z(1), SI(2), U(3));
  else { NO; }
  r_z(Z(1));
}
static void mz_zzu(void) {
  fn = S(0);
  if (F(fib2_ui)) mpz_fib2_ui(Z(1), Z(2), U(3));
  else if (F(lucnum2_ui)) mpz_lucnum2_ui(Z(1), Z(2), U(3));
  else { NO; }
  r_z(Z(1)); r_z(Z(2));
}
static void mz_gcdext(void) {
  mpz_gcdext(ZN(0), ZN(1), ZN(2), Z(3), Z(4));
  if (I(0) >= 0) r_z(Z(0)); else r_str("-");
  if (I(1) >= 0) r_z(Z(1)); else r_str("-");
  if (I(2) >= 0) r_z(Z(2)); else r_str("-");
}
static void mz_powm(void) {
  fn = S(0);
  if (F(powm)) mpz_powm(Z(1), Z(2), Z(3), Z(4));
  else if (F(powm_sec)) mpz_powm_sec(Z(1), Z(2), Z(3), Z(4));
  else if (F(powm_ui)) mpz_powm_ui(Z(1), Z(2), U(3), Z(4));
  else { NO; }
  r_z(Z(1));
}
static void mz_sqrtpq(void) { r_int(mpz_sqrtpq(Z(0), Z(1), Z(2), Z(3))); r_z(Z(0)); }
static void mz_prime(void) {
  rs = (unsigned char)(I(3) | 1);
  fn = S(0);
  if (F(mr)) r_int(mpz_mr_prime_p(Z(1), (int)I(2), 1, rngf, NULL));
  else if (F(mr_random)) r_int(mpz_mr_prime_p(Z(1), (int)I(2), 0, rngf, NULL));
  else if (F(probab)) r_int(mpz_probab_prime_p(Z(1), (int)I(2), rngf, NULL));
  else { NO; }
}
static void mz_search(void) {
  rs = (unsigned char)(I(4) | 1);
  fn = S(0);
  if (F(nextprime)) mpz_nextprime(Z(1), Z(2), rngf, NULL);
  else if (F(findprime)) r_int(mpz_findprime(Z(1), Z(2), U(3), rngf, NULL));
  else if (F(randprime)) mpz_randprime(Z(1), I(3), rngf, NULL);
  else if (F(urandomb)) mpz_urandomb(Z(1), I(3), rngf, NULL);
  else if (F(urandomm)) mpz_urandomm(Z(1), Z(2), rngf, NULL);
  else { NO; }
  r_z(Z(1));
}
static void mz_import(void) { mpz_import(Z(0), P(1), L(1), (int)I(2)); r_z(Z(0)); }
static void mz_export(void) {
  unsigned char *p = obuf((size_t)I(1));
  mpz_export(p, Z(0), (size_t)I(1), (int)I(2));
  r_hex(p, (size_t)I(1));
}
static void mz_setstr(void) {
  char *t = (char *)obuf(L(1) + 1);
  memcpy(t, P(1), L(1)); t[L(1)] = 0;
  r_int(mpz_set_str(Z(0), t, (int)I(2)));
  r_z(Z(0));
}
static void mz_initstr(void) {
  char *t = (char *)obuf(L(1) + 1);
  memcpy(t, P(1), L(1)); t[L(1)] = 0;
  mpz_clear(Z(0));
  r_int(mpz_init_set_str(Z(0), t, (int)I(2)));
  r_z(Z(0));
}
static void mz_getstr(void) {
  char *t = mpz_get_str(Z(0), (int)I(1));
  r_hex((unsigned char *)t, strlen(t));
  free(t);
}
static void mz_realloc(void) { _mpz_realloc(Z(0), I(1)); r_int(MP_LIMB_BYTES); r_z(Z(0)); }
static void mz_realloc2(void) { mpz_realloc2(Z(0), I(1)); r_int(MP_LIMB_BYTES); r_z(Z(0)); }
static void mz_cleanse(void) { mpz_cleanse(Z(0)); mpz_init2(Z(0), I(1)); r_z(Z(0)); }

/* ---- limb vectors: operands big-endian, a multiple of 8 bytes long */

#define LB MP_LIMB_BYTES
static mp_limb_t *buf_n(size_t n) { return (mp_limb_t *)obuf(n * LB); }
static size_t nl(int k) { return L(k) / LB; }
static mp_limb_t *limbs(int k) {
  size_t n = nl(k), i;
  mp_limb_t *p = buf_n(n);
  for (i = 0; i < n; i++) p[i] = 0;
  for (i = 0; i < L(k); i++)
    p[i / LB] |= (mp_limb_t)P(k)[L(k) - 1 - i] << 8 * (i % LB);
  return p;
}
static void r_n(const mp_limb_t *p, size_t n) {
  unsigned char *b = obuf(n * LB + 1);
  size_t i;
  int j;
  for (i = 0; i < n; i++)
    for (j = 0; j < LB; j++)
      b[(n - i) * LB - 1 - j] = (unsigned char)(p[i] >> 8 * j);
  r_mag(b, n * LB, 0);
}
/* alias: 0 separate result, 1 result over x, 2 result over y */
static void mn_vec(void) {
  mp_limb_t *x = limbs(1), *y = limbs(2), *z;
  size_t xn = nl(1), yn = nl(2), n = xn;
  fn = S(0);
  z = I(3) == 1 ? x : I(3) == 2 ? y : buf_n(xn);
  r_int(LB);
  if (F(add)) r_limb(mpn_add(z, x, xn, y, yn));
  else if (F(add_n)) r_limb(mpn_add_n(z, x, y, n));
  else if (F(sec_add)) r_limb(mpn_sec_add(z, x, xn, y, yn));
  else if (F(sub)) r_limb(mpn_sub(z, x, xn, y, yn));
  else if (F(sub_n)) r_limb(mpn_sub_n(z, x, y, n));
  else if (F(sec_sub)) r_limb(mpn_sec_sub(z, x, xn, y, yn));
  else if (F(and_n)) mpn_and_n(z, x, y, n);
  else if (F(ior_n)) mpn_ior_n(z, x, y, n);
  else if (F(xor_n)) mpn_xor_n(z, x, y, n);
  else if (F(andn_n)) mpn_andn_n(z, x, y, n);
  else if (F(iorn_n)) mpn_iorn_n(z, x, y, n);
  else if (F(nand_n)) mpn_nand_n(z, x, y, n);
  else if (F(nior_n)) mpn_nior_n(z, x, y, n);
  else if (F(xnor_n)) mpn_xnor_n(z, x, y, n);
  else if (F(cnd_add_n)) r_limb(mpn_cnd_add_n(z, x, y, n, I(4)));
  else if (F(cnd_sub_n)) r_limb(mpn_cnd_sub_n(z, x, y, n, I(4)));
  else if (F(cnd_select)) mpn_cnd_select(z, x, y, n, I(4));
  else if (F(cnd_swap)) { mpn_cnd_swap(x, y, n, I(4)); r_n(y, n); z = x; }
  else { NO; }
  r_n(z, xn);
}
static void mn_lim(void) {
  mp_limb_t *x = limbs(1), *z;
  size_t xn = nl(1);
  mp_limb_t y = U(2);
  fn = S(0);
  z = I(3) == 1 ? x : buf_n(xn);
  r_int(LB);
  if (F(add_1)) r_limb(mpn_add_1(z, x, xn, y));
  else if (F(sec_add_1)) r_limb(mpn_sec_add_1(z, x, xn, y));
  else if (F(sub_1)) r_limb(mpn_sub_1(z, x, xn, y));
  else if (F(sec_sub_1)) r_limb(mpn_sec_sub_1(z, x, xn, y));
  else if (F(mul_1)) r_limb(mpn_mul_1(z, x, xn, y));
  else if (F(divmod_1)) r_limb(mpn_divmod_1(z, x, xn, y));
  else if (F(mod_1)) { r_limb(mpn_mod_1(x, xn, y)); z = x; }
  else if (F(cnd_zero)) mpn_cnd_zero(z, x, xn, y);
  else if (F(cnd_neg)) r_limb(mpn_cnd_neg(z, x, xn, y));
  else if (F(neg)) r_limb(mpn_neg(z, x, xn));
  else if (F(com)) mpn_com(z, x, xn);
  else if (F(lshift)) r_limb(mpn_lshift(z, x, xn, (mp_bits_t)y));
  else if (F(rshift)) r_limb(mpn_rshift(z, x, xn, (mp_bits_t)y));
  else if (F(mask)) mpn_mask(z, x, xn, (mp_bits_t)y);
  else if (F(setbit)) { mpn_setbit(x, (mp_bits_t)y); z = x; }
  else if (F(clrbit)) { mpn_clrbit(x, (mp_bits_t)y); z = x; }
  else if (F(combit)) { mpn_combit(x, (mp_bits_t)y); z = x; }
  else if (F(scan0)) { r_bits(mpn_scan0(x, xn, (mp_bits_t)y)); z = x; }
  else if (F(scan1)) { r_bits(mpn_scan1(x, xn, (mp_bits_t)y)); z = x; }
  else if (F(getbit)) { r_limb(mpn_getbit(x, xn, (mp_bits_t)y)); z = x; }
  else if (F(div_1)) mpn_div_1(z, x, xn, y);
  else if (F(divexact_1)) mpn_divexact_1(z, x, xn, y);
  else if (F(set_1)) { z = x; mpn_set_1(z, xn, y); }
  else if (F(zero)) { z = x; mpn_zero(z, xn); }
  else if (F(cleanse)) { z = x; mpn_cleanse(z, xn); }
  else if (F(tstbit)) { r_int(mpn_tstbit(x, (mp_bits_t)y)); z = x; }
  else if (F(ctz)) { r_bits(mpn_ctz(x, xn)); z = x; }
  else if (F(copyi)) { mp_size_t k = (mp_size_t)y / LB; z = x; mpn_copyi(z, x + k, xn - k); }
  else if (F(copyd)) { mp_size_t k = (mp_size_t)y / LB; z = x; mpn_copyd(z + k, x, xn - k); }
  else if (F(sizeinbase)) { r_int((long)mpn_sizeinbase(x, xn, (int)y)); z = x; }
  else { NO; }
  r_n(z, xn);
}
static void mn_getbits(void) { r_limb(mpn_getbits(limbs(0), nl(0), I(1), I(2))); }
static void mn_acc(void) {
  mp_limb_t *z = limbs(1), *x = limbs(2);
  fn = S(0);
  r_int(LB);
  if (F(addmul_1)) r_limb(mpn_addmul_1(z, x, nl(2), U(3)));
  else if (F(submul_1)) r_limb(mpn_submul_1(z, x, nl(2), U(3)));
  else { NO; }
  r_n(z, nl(1));
}
static void mn_mul(void) {
  mp_limb_t *x = limbs(1), *y = limbs(2), *z = buf_n(nl(1) + nl(2));
  fn = S(0);
  if (F(mul)) mpn_mul(z, x, nl(1), y, nl(2));
  else if (F(mul_n)) mpn_mul_n(z, x, y, nl(1));
  else if (F(sqr)) mpn_sqr(z, x, nl(1), buf_n(MPN_SQR_ITCH(nl(1))));
  else { NO; }
  r_n(z, nl(1) + nl(2));
}
static void mn_mulshift(void) {
  size_t n = nl(0);
  mp_limb_t *z = buf_n(n);
  r_int(LB);
  r_limb(mpn_mulshift(z, limbs(0), limbs(1), n, I(2), buf_n(MPN_MULSHIFT_ITCH(n))));
  r_n(z, n);
}
/* alias: 0 none, 1 q over n, 2 r over n, 3 r over d, 4 q over n and r over d */
static void mn_div(void) {
  mp_limb_t *x = limbs(1), *y = limbs(2), *q, *r;
  size_t nn = nl(1), dn = nl(2), qn = nn - dn + 1;
  int al = (int)I(3);
  fn = S(0);
  q = al == 1 || al == 4 ? x : buf_n(qn);
  r = al == 2 ? x : al == 3 || al == 4 ? y : buf_n(dn);
  if (F(divmod)) { mpn_divmod(q, r, x, nn, y, dn); r_n(q, qn); r_n(r, dn); }
  else if (F(div)) { mpn_div(q, x, nn, y, dn); r_n(q, qn); }
  else if (F(mod)) { mpn_mod(r, x, nn, y, dn); r_n(r, dn); }
  else if (F(divexact)) { mpn_divexact(q, x, nn, y, dn); r_n(q, qn); }
  else { NO; }
}
static void mn_sqrtrem(void) {
  size_t n = nl(0);
  mp_limb_t *x = limbs(0), *z = buf_n((n + 1) / 2), *r = buf_n(n);
  r_int(LB);
  r_int((long)mpn_sqrtrem(z, r, x, n));
  r_n(z, (n + 1) / 2); r_n(r, n);
  r_int(mpn_perfect_square_p(x, n));
}
static void mn_reduceweak(void) {
  size_t n = nl(0);
  mp_limb_t *z = buf_n(n);
  r_int(LB);
  r_int(mpn_reduce_weak(z, limbs(0), limbs(1), n, U(2), buf_n(MPN_REDUCE_WEAK_ITCH(n))));
  r_n(z, n);
}
/* reduction of x modulo n by Barrett's method, x of `shift` limbs */
static void mn_barrett(void) {
  size_t n = nl(1), shift = nl(0);
  mp_limb_t *m = buf_n(shift - n + 1), *z = buf_n(n);
  mpn_barrett(m, limbs(1), n, shift, buf_n(MPN_BARRETT_ITCH(shift)));
  mpn_reduce(z, limbs(0), m, limbs(1), n, shift, buf_n(MPN_REDUCE_ITCH(n, shift)));
  r_n(z, n);
}
static void mn_mont(void) {
  size_t n = nl(2);
  mp_limb_t *m = limbs(2), *z = buf_n(n), *r = buf_n(n), k;
  r_int(LB);
  mpn_mont(&k, r, m, n, buf_n(MPN_MONT_ITCH(n)));
  r_limb(k); r_n(r, n);
  mpn_montmul(z, limbs(0), limbs(1), m, n, k, buf_n(MPN_MONTMUL_ITCH(n)));
  r_n(z, n);
  mpn_sec_montmul(z, limbs(0), limbs(1), m, n, k, buf_n(MPN_MONTMUL_ITCH(n)));
  r_n(z, n);
}
static void mn_nt(void) {
  size_t xn = nl(1), yn = nl(2);
  mp_limb_t *x = limbs(1), *y = limbs(2), *z = buf_n(yn);
  fn = S(0);
  if (F(gcd)) { size_t n = (size_t)mpn_gcd(z, x, xn, y, yn, buf_n(MPN_GCD_ITCH(xn, yn))); r_n(z, n); }
  else if (F(invert)) { r_int(mpn_invert(z, x, xn, y, yn, buf_n(MPN_INVERT_ITCH(yn)))); r_n(z, yn); }
  else if (F(invert_n)) { r_int(mpn_invert_n(z, x, y, yn, buf_n(MPN_INVERT_ITCH(yn)))); r_n(z, yn); }
  else if (F(sec_invert)) { r_int(mpn_sec_invert(z, x, xn, y, yn, buf_n(MPN_SEC_INVERT_ITCH(yn)))); r_n(z, yn); }
  else if (F(sec_invert_n)) { r_int(mpn_sec_invert_n(z, x, y, yn, buf_n(MPN_SEC_INVERT_ITCH(yn)))); r_n(z, yn); }
  else if (F(jacobi)) r_int(mpn_jacobi(x, xn, y, yn, buf_n(MPN_JACOBI_ITCH(yn))));
  else if (F(jacobi_n)) r_int(mpn_jacobi_n(x, y, yn, buf_n(MPN_JACOBI_ITCH(yn))));
  else { NO; }
}
static void mn_gcd1(void) { r_limb(mpn_gcd_1(limbs(0), nl(0), U(1), buf_n(MPN_GCD_1_ITCH(nl(0))))); }
static void mn_powm(void) {
  size_t xn = nl(1), yn = nl(2), mn = nl(3);
  mp_limb_t *z = buf_n(mn);
  fn = S(0);
  if (F(powm)) mpn_powm(z, limbs(1), xn, limbs(2), yn, limbs(3), mn, buf_n(MPN_POWM_ITCH(yn, mn)));
  else if (F(sec_powm)) mpn_sec_powm(z, limbs(1), xn, limbs(2), yn, limbs(3), mn, buf_n(MPN_SEC_POWM_ITCH(mn)));
  else { NO; }
  r_n(z, mn);
}
static void mn_cmp(void) {
  mp_limb_t *x = limbs(0), *y = limbs(1);
  size_t n = nl(0);
  r_int(mpn_cmp(x, y, n)); r_int(mpn_sec_cmp(x, y, n));
  r_int(mpn_sec_lt_p(x, y, n)); r_int(mpn_sec_lte_p(x, y, n)); r_int(mpn_sec_gt_p(x, y, n)); r_int(mpn_sec_gte_p(x, y, n));
  r_int(mpn_sec_equal_p(x, y, n)); r_int(mpn_sec_zero_p(x, n)); r_int(mpn_zero_p(x, n));
  r_bits(mpn_hamdist(x, y, n)); r_bits(mpn_popcount(x, n)); r_bits(mpn_bitlen(x, n)); r_int((long)mpn_bytelen(x, n));
}
static void mn_tab(void) {
  size_t n = (size_t)I(1) / LB, cnt = L(0) / (size_t)I(1), i;
  mp_limb_t *t = buf_n(n * cnt), *z = buf_n(n), *v = limbs(0);
  /* entry i of the table is the i-th group of the argument, read from the right */
  for (i = 0; i < n * cnt; i++) t[i] = v[i];
  mpn_sec_tabselect(z, t, n, cnt, I(2));
  r_n(z, n);
}
/* digits size base */
static void mn_setstr(void) {
  size_t n = (size_t)I(1) / LB;
  mp_limb_t *z = buf_n(n);
  char *t = (char *)obuf(L(0) + 1);
  memcpy(t, P(0), L(0)); t[L(0)] = 0;
  r_int(mpn_set_str(z, n, t, (int)I(2)));
  r_n(z, n);
}
static char *printed;
static int keep(const char *t) { free(printed); printed = strdup(t); return 0; }
static void mn_getstr(void) {
  mp_limb_t *x = limbs(0);
  size_t m = mpn_sizeinbase(x, nl(0), (int)I(1));
  char *t = (char *)obuf(m + 1);
  r_int((long)mpn_get_str(t, x, nl(0), (int)I(1)));
  r_hex((unsigned char *)t, strlen(t));
  mpn_print(x, nl(0), (int)I(1), keep);
  r_hex((unsigned char *)printed, strlen(printed));
}
static void mz_print(void) { mpz_print(Z(0), (int)I(1), keep); r_hex((unsigned char *)printed, strlen(printed)); }
static void mn_gcdext(void) {
  size_t yn = nl(1);
  mp_limb_t *g = buf_n(yn), *s = buf_n(yn + 1);
  mp_size_t sn = 12345, gn = mpn_gcdext(g, s, &sn, limbs(0), nl(0), limbs(1), yn);
  r_int(LB); r_int((long)gn); r_n(g, yn); r_int(sn < 0 ? -1 : sn > 0); r_int((long)(sn < 0 ? -sn : sn)); r_n(s, yn + 1);
}
static void samef(void *out, size_t n, void *arg) { memset(out, *(unsigned char *)arg, n); }
static void mn_random(void) {
  unsigned char b = (unsigned char)I(1);
  mp_limb_t *z = limbs(0);
  mpn_random(z, nl(0), samef, &b);
  r_n(z, nl(0));
}
static void mn_randomm(void) {
  mp_limb_t *z = buf_n(nl(0));
  rs = (unsigned char)(I(1) | 1);
  mpn_randomm(z, limbs(0), nl(0), rngf, NULL);
  r_n(z, nl(0));
}
static void mn_import(void) {
  size_t n = (size_t)I(1) / LB;
  mp_limb_t *z = buf_n(n);
  mpn_import(z, n, P(0), L(0), (int)I(2));
  r_n(z, n);
}
static void mn_export(void) {
  unsigned char *p = obuf((size_t)I(1));
  mpn_export(p, (size_t)I(1), limbs(0), nl(0), (int)I(2));
  r_hex(p, (size_t)I(1));
}
TABLE(ops) = {
#define O(n) { #n, n }
  O(mz_set), O(mz_zxy), O(mz_zxu), O(mz_zxs), O(mz_zx), O(mz_zxb), O(mz_zb), O(mz_mulshift), O(mz_zzxy), O(mz_zzx),
  O(mz_rootrem), O(mz_pxy), O(mz_pxu), O(mz_pxs), O(mz_pxb), O(mz_px), O(mz_congr), O(mz_zu), O(mz_zuu), O(mz_zzu),
  O(mz_gcdext), O(mz_powm), O(mz_sqrtpq), O(mz_prime), O(mz_search), O(mz_import), O(mz_export), O(mz_setstr),
  O(mz_getstr), O(mz_realloc), O(mz_realloc2), O(mz_cleanse),
  O(mn_vec), O(mn_lim), O(mn_getbits), O(mn_acc), O(mn_mul), O(mn_mulshift), O(mn_div), O(mn_sqrtrem), O(mn_reduceweak),
  O(mn_barrett), O(mn_mont), O(mn_nt), O(mn_gcd1), O(mn_powm), O(mn_cmp), O(mn_tab), O(mn_import), O(mn_export),
  O(mn_setstr), O(mn_getstr), O(mn_gcdext), O(mn_random), O(mn_randomm), O(mz_print), O(mz_initstr), END
};
__attribute__((constructor)) static void init(void) {
  add_ops(ops);
  on_reset(mz_reset);
}
