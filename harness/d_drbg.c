#include "drv.h"
#include <torsion/drbg.h>

int hash_by_name(const char *s);
typedef struct dr { int kind; hmac_drbg_t hm; hash_drbg_t hs; ctr_drbg_t ct; } dr_t;
static dr_t *slot[8];
static dr_t *X(int k) {
  int i = (int)I(k);
  if (!slot[i]) slot[i] = calloc(1, sizeof(dr_t));
  return slot[i];
}
static void reset(void) {
  int i;
  for (i = 0; i < 8; i++) { free(slot[i]); slot[i] = NULL; }
}
static void hm_init(void) { dr_t *x = X(0); x->kind = 1; hmac_drbg_init(&x->hm, hash_by_name(S(1)), P(2), L(2)); r_str("ok"); }
static void hs_init(void) { dr_t *x = X(0); x->kind = 2; hash_drbg_init(&x->hs, hash_by_name(S(1)), P(2), L(2)); r_str("ok"); }
static void ct_init(void) { dr_t *x = X(0); x->kind = 3; ctr_drbg_init(&x->ct, (unsigned)I(1), (int)I(2), P(3), L(3), P(4), L(4)); r_str("ok"); }
static void dr_reseed(void) {
  dr_t *x = X(0);
  if (x->kind == 1) hmac_drbg_reseed(&x->hm, P(1), L(1));
  else if (x->kind == 2) hash_drbg_reseed(&x->hs, P(1), L(1));
  else ctr_drbg_reseed(&x->ct, P(1), L(1), P(2), L(2));
  r_str("ok");
}
static void dr_gen(void) {
  dr_t *x = X(0);
  size_t n = (size_t)I(1);
  unsigned char *o = obuf(n);
  if (x->kind == 1) hmac_drbg_generate(&x->hm, o, n, P(2), L(2));
  else if (x->kind == 2) hash_drbg_generate(&x->hs, o, n, P(2), L(2));
  else ctr_drbg_generate(&x->ct, o, n, P(2), L(2));
  r_hex(o, n);
}
static void dr_rng(void) {
  dr_t *x = X(0);
  size_t n = (size_t)I(1);
  unsigned char *o = obuf(n);
  if (x->kind == 1) hmac_drbg_rng(o, n, &x->hm);
  else if (x->kind == 2) hash_drbg_rng(o, n, &x->hs);
  else ctr_drbg_rng(o, n, &x->ct);
  r_hex(o, n);
}
static void dr_copy(void) { *X(0) = *X(1); r_str("ok"); }
/* move the state to other memory and wipe the old place */
static void dr_move(void) {
  int i = (int)I(0);
  dr_t *n = malloc(sizeof(dr_t));
  *n = *X(0);
  memset(slot[i], 0x5a, sizeof(dr_t));
  free(slot[i]);
  slot[i] = n;
  r_str("ok");
}
TABLE(ops) = {
  {"hm_init", hm_init}, {"hs_init", hs_init}, {"ct_init", ct_init}, {"dr_reseed", dr_reseed}, {"dr_gen", dr_gen},
  {"dr_rng", dr_rng}, {"dr_copy", dr_copy}, {"dr_move", dr_move}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); on_reset(reset); }
