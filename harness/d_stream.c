#include "drv.h"
#include <torsion/aead.h>
#include <torsion/ies.h>
#include <torsion/mac.h>
#include <torsion/stream.h>
#include <torsion/util.h>

typedef struct sx { int kind; arc4_t a; chacha20_t c; salsa20_t s; poly1305_t p; chachapoly_t cp; } sx_t;
static sx_t *slot[8];
static sx_t *X(int k) {
  int i = (int)I(k);
  if (!slot[i]) slot[i] = calloc(1, sizeof(sx_t));
  return slot[i];
}
static void reset(void) {
  int i;
  for (i = 0; i < 8; i++) { free(slot[i]); slot[i] = NULL; }
}
static uint64_t u64(int k) {
  uint64_t v = 0;
  size_t i;
  for (i = 0; i < L(k); i++) v = v << 8 | P(k)[i];
  return v;
}
static void begin(sx_t *x, int k) {
  const char *f = S(k);
  if (!strcmp(f, "arc4")) { x->kind = 0; arc4_init(&x->a, P(k + 1), L(k + 1)); }
  else if (!strcmp(f, "chacha20")) { x->kind = 1; chacha20_init(&x->c, P(k + 1), L(k + 1), P(k + 2), L(k + 2), u64(k + 3)); }
  else { x->kind = 2; salsa20_init(&x->s, P(k + 1), L(k + 1), P(k + 2), L(k + 2), u64(k + 3)); }
}
static void crypt(sx_t *x, unsigned char *o, const unsigned char *in, size_t n) {
  if (x->kind == 0) arc4_crypt(&x->a, o, in, n);
  else if (x->kind == 1) chacha20_crypt(&x->c, o, in, n);
  else salsa20_crypt(&x->s, o, in, n);
}
static void st_init(void) { begin(X(0), 1); r_str("ok"); }
static void st_crypt(void) {
  unsigned char *o = obuf(L(1));
  const unsigned char *in = P(1);
  if (I(2)) { memcpy(o, in, L(1)); in = o; }
  crypt(X(0), o, in, L(1));
  r_hex(o, L(1));
}
static size_t next_cut(size_t b, size_t n, size_t step) { return b + step > n && b < n ? n : b + step; }
static void st_cuts(void) {
  size_t n = L(4), a, b, step = (size_t)I(5);
  unsigned char *ref = obuf(n), *o = obuf(n);
  sx_t *x = malloc(sizeof(*x));
  begin(x, 0);
  crypt(x, ref, P(4), n);
  for (a = 0; a <= n; a++)
    for (b = a; b <= n; b = next_cut(b, n, step)) {
      begin(x, 0);
      memcpy(o, P(4), n);
      crypt(x, o, a % 3 ? P(4) : o, a);
      crypt(x, o + a, P(4) + a, b - a);
      crypt(x, o + b, o + b, n - b);
      if (memcmp(o, ref, n)) { char t[64]; sprintf(t, "DIFF:%lu:%lu", (unsigned long)a, (unsigned long)b); r_str(t); }
    }
  free(x);
  r_hex(ref, n);
}
static void st_derive(void) {
  unsigned char *o = obuf(32);
  if (!strcmp(S(0), "chacha20")) chacha20_derive(o, P(1), L(1), P(2));
  else salsa20_derive(o, P(1), L(1), P(2));
  r_hex(o, 32);
}
static void sx_copy(void) { memcpy(X(0), X(1), sizeof(sx_t)); r_str("ok"); }
static void po_init(void) { poly1305_init(&X(0)->p, P(1)); r_str("ok"); }
static void po_update(void) { poly1305_update(&X(0)->p, P(1), L(1)); r_str("ok"); }
static void po_pad(void) { poly1305_pad(&X(0)->p); r_str("ok"); }
static void po_final(void) { unsigned char *o = obuf(16); poly1305_final(&X(0)->p, o); r_hex(o, 16); }
static void po_cuts(void) {
  size_t n = L(1), a, b, step = (size_t)I(2);
  unsigned char *ref = obuf(16), *o = obuf(16);
  poly1305_t *p = malloc(sizeof(*p));
  poly1305_init(p, P(0));
  poly1305_update(p, P(1), n);
  poly1305_final(p, ref);
  for (a = 0; a <= n; a++)
    for (b = a; b <= n; b = next_cut(b, n, step)) {
      memset(p, 0xa5, sizeof(*p));
      poly1305_init(p, P(0));
      poly1305_update(p, P(1), a);
      poly1305_update(p, P(1) + a, b - a);
      poly1305_update(p, P(1) + b, n - b);
      poly1305_final(p, o);
      if (memcmp(o, ref, 16)) { char t[64]; sprintf(t, "DIFF:%lu:%lu", (unsigned long)a, (unsigned long)b); r_str(t); }
    }
  free(p);
  r_hex(ref, 16);
}
static void cp_init(void) { chachapoly_init(&X(0)->cp, P(1), P(2), L(2)); r_str("ok"); }
static void cp_aad(void) { chachapoly_aad(&X(0)->cp, P(1), L(1)); r_str("ok"); }
static void cp_auth(void) { chachapoly_auth(&X(0)->cp, P(1), L(1)); r_str("ok"); }
static void cp_x(int enc) {
  unsigned char *o = obuf(L(1));
  const unsigned char *in = P(1);
  if (I(2)) { memcpy(o, in, L(1)); in = o; }
  if (enc) chachapoly_encrypt(&X(0)->cp, o, in, L(1));
  else chachapoly_decrypt(&X(0)->cp, o, in, L(1));
  r_hex(o, L(1));
}
static void cp_enc(void) { cp_x(1); }
static void cp_dec(void) { cp_x(0); }
static void cp_final(void) { unsigned char *o = obuf(16); chachapoly_final(&X(0)->cp, o); r_hex(o, 16); }
static void sb_seal(void) {
  unsigned char *o = obuf(SECRETBOX_SEAL_SIZE(L(0)));
  secretbox_seal(o, P(0), L(0), P(1), P(2));
  r_hex(o, SECRETBOX_SEAL_SIZE(L(0)));
}
static void sb_open(void) {
  size_t n = SECRETBOX_OPEN_SIZE(L(0));
  unsigned char *o = obuf(n);
  int r = secretbox_open(o, P(0), L(0), P(1), P(2));
  r_int(r);
  r_hex(o, r ? n : 0);
}
static void sb_derive(void) { unsigned char *o = obuf(32); secretbox_derive(o, P(0)); r_hex(o, 32); }

TABLE(ops) = {
  {"st_init", st_init}, {"st_crypt", st_crypt}, {"st_cuts", st_cuts}, {"st_derive", st_derive}, {"sx_copy", sx_copy},
  {"po_init", po_init}, {"po_update", po_update}, {"po_pad", po_pad}, {"po_final", po_final}, {"po_cuts", po_cuts},
  {"cp_init", cp_init}, {"cp_aad", cp_aad}, {"cp_auth", cp_auth}, {"cp_enc", cp_enc}, {"cp_dec", cp_dec}, {"cp_final", cp_final},
  {"sb_seal", sb_seal}, {"sb_open", sb_open}, {"sb_derive", sb_derive}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); on_reset(reset); }
