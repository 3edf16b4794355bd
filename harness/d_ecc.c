#include "ecc_common.h"

static const char *wn[] = {"p192", "p224", "p256", "p384", "p521", "secp256k1"};
static const char *mn[] = {"x25519", "x448"};
static const char *en[] = {"ed25519", "ed448", "ed1174"};
static wei_curve_t *W[6];
static mont_curve_t *M[2];
static edwards_curve_t *E[3];
static int tw[6], te[3];

static int find(const char **t, int n, const char *s) {
  int i;
  for (i = 0; i < n; i++) if (!strcmp(t[i], s)) return i;
  die("unknown curve");
  return -1;
}
wei_curve_t *wei(int k) {
  int i = find(wn, 6, S(k));
  if (!W[i]) W[i] = wei_curve_create((wei_curve_id_t)i);
  return W[i];
}
mont_curve_t *mont(int k) {
  int i = find(mn, 2, S(k));
  if (!M[i]) M[i] = mont_curve_create((mont_curve_id_t)i);
  return M[i];
}
edwards_curve_t *edw(int k) {
  int i = find(en, 3, S(k));
  if (!E[i]) E[i] = edwards_curve_create((edwards_curve_id_t)i);
  return E[i];
}
void touched(int k) {
  int i;
  for (i = 0; i < 6; i++) if (!strcmp(wn[i], S(k))) tw[i] = 1;
  for (i = 0; i < 3; i++) if (!strcmp(en[i], S(k))) te[i] = 1;
}
static void reset(void) {
  int i;
  for (i = 0; i < 6; i++) if (tw[i]) { wei_curve_destroy(W[i]); W[i] = NULL; tw[i] = 0; }
  for (i = 0; i < 3; i++) if (te[i]) { edwards_curve_destroy(E[i]); E[i] = NULL; te[i] = 0; }
  if (M[0]) { mont_curve_destroy(M[0]); M[0] = NULL; }
}
void r_txt(int ok, const void *p, size_t n) {
  const unsigned char *b = p;
  char *t;
  size_t i;
  if (!ok) { r_str("-"); return; }
  t = (char *)obuf(2 * n + 2);
  for (i = 0; i < n; i++) sprintf(t + 2 * i, "%02x", b[i]);
  t[2 * n] = '.'; t[2 * n + 1] = 0;
  r_str(t);
}
__attribute__((constructor)) static void init(void) { on_reset(reset); }
