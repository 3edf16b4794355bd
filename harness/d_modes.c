/* Modes of operation called directly, without a stream. */
#include "drv.h"
#include <torsion/cipher.h>

cipher_id_t cid(const char *s);
mode_id_t mid(const char *s);

typedef struct slot {
  cipher_t c;
  mode_id_t m;
  int enc;
  size_t n;
  unsigned char last[CIPHER_MAX_BLOCK_SIZE];
  union { cbc_t cbc; xts_t xts; ctr_t ctr; cfb_t cfb; ofb_t ofb; gcm_t gcm; ccm_t ccm; eax_t eax; } u;
} slot_t;
static slot_t *slots[4];
static slot_t *M(int k) {
  int i = (int)I(k);
  if (i < 0 || i > 3) die("slot");
  if (!slots[i]) slots[i] = calloc(1, sizeof(slot_t));
  return slots[i];
}
static void reset(void) { int i; for (i = 0; i < 4; i++) { free(slots[i]); slots[i] = NULL; } }

/* slot mode enc id key iv tweak-key */
static void md_init(void) {
  slot_t *s = M(0);
  const unsigned char *iv = P(5);
  int r = 1;
  memset(s, 0x3c, sizeof(*s));
  s->m = mid(S(1));
  s->enc = (int)I(2);
  s->n = cipher_block_size(cid(S(3)));
  if (!cipher_init(&s->c, cid(S(3)), P(4), L(4))) die("key");
  switch (s->m) {
    case CIPHER_MODE_ECB: break;
    case CIPHER_MODE_CBC: cbc_init(&s->u.cbc, &s->c, iv); break;
    case CIPHER_MODE_XTS: xts_init(&s->u.xts, &s->c, iv); r = xts_setup(&s->u.xts, &s->c, P(6), L(6)); break;
    case CIPHER_MODE_CTR: ctr_init(&s->u.ctr, &s->c, iv); break;
    case CIPHER_MODE_CFB: cfb_init(&s->u.cfb, &s->c, iv); break;
    case CIPHER_MODE_OFB: ofb_init(&s->u.ofb, &s->c, iv); break;
    case CIPHER_MODE_GCM: r = gcm_init(&s->u.gcm, &s->c, iv, L(5)); break;
    case CIPHER_MODE_CCM: r = ccm_init(&s->u.ccm, &s->c, iv, L(5)); break;
    case CIPHER_MODE_EAX: r = eax_init(&s->u.eax, &s->c, iv, L(5)); break;
    default: die("mode");
  }
  r_int(r);
}
static void md_aad(void) {
  slot_t *s = M(0);
  if (s->m == CIPHER_MODE_GCM) gcm_aad(&s->u.gcm, P(1), L(1));
  else eax_aad(&s->u.eax, &s->c, P(1), L(1));
  r_str("ok");
}
/* slot message-length tag-length aad */
static void md_ccm(void) { slot_t *s = M(0); r_int(ccm_setup(&s->u.ccm, &s->c, (size_t)I(1), (size_t)I(2), P(3), L(3))); }
/* slot data in-place */
static void md_crypt(void) {
  slot_t *s = M(0);
  size_t n = L(1);
  unsigned char *o = obuf(n);
  const unsigned char *in = P(1);
  const cipher_t *c = &s->c;
  if (I(2)) { memcpy(o, in, n); in = o; }
#define TWO(x) if (s->enc) x##_encrypt(&s->u.x, c, o, in, n); else x##_decrypt(&s->u.x, c, o, in, n); break
  switch (s->m) {
    case CIPHER_MODE_ECB: if (s->enc) ecb_encrypt(c, o, in, n); else ecb_decrypt(c, o, in, n); break;
    case CIPHER_MODE_CBC: TWO(cbc);
    case CIPHER_MODE_XTS: TWO(xts);
    case CIPHER_MODE_CTR: ctr_crypt(&s->u.ctr, c, o, in, n); break;
    case CIPHER_MODE_CFB: TWO(cfb);
    case CIPHER_MODE_OFB: ofb_crypt(&s->u.ofb, c, o, in, n); break;
    case CIPHER_MODE_GCM: TWO(gcm);
    case CIPHER_MODE_CCM: TWO(ccm);
    case CIPHER_MODE_EAX: TWO(eax);
    default: die("mode");
  }
  if (n >= s->n) memcpy(s->last, o + n - s->n, s->n);
  r_hex(o, n);
}
/* the last output block and a partial one */
static void md_steal(void) {
  slot_t *s = M(0);
  unsigned char *l = obuf(s->n), *b = obuf(L(1));
  memcpy(l, s->last, s->n);
  memcpy(b, P(1), L(1));
#define STEAL(x) if (s->enc) x##_steal(&s->u.x, &s->c, l, b, L(1)); else x##_unsteal(&s->u.x, &s->c, l, b, L(1)); break
  switch (s->m) {
    case CIPHER_MODE_ECB: if (s->enc) ecb_steal(&s->c, l, b, L(1)); else ecb_unsteal(&s->c, l, b, L(1)); break;
    case CIPHER_MODE_CBC: STEAL(cbc);
    case CIPHER_MODE_XTS: STEAL(xts);
    default: die("steal");
  }
  r_hex(l, s->n);
  r_hex(b, L(1));
}
static void md_digest(void) {
  slot_t *s = M(0);
  size_t n = s->m == CIPHER_MODE_EAX ? s->n : 16;
  unsigned char *o = obuf(n);
  if (s->m == CIPHER_MODE_GCM) gcm_digest(&s->u.gcm, o);
  else if (s->m == CIPHER_MODE_CCM) ccm_digest(&s->u.ccm, &s->c, o);
  else eax_digest(&s->u.eax, &s->c, o);
  r_hex(o, n);
}
static void md_copy(void) { memcpy(M(0), M(1), sizeof(slot_t)); r_str("ok"); }

#define T(x) {#x, x}
TABLE(ops) = { T(md_init), T(md_aad), T(md_ccm), T(md_crypt), T(md_steal), T(md_digest), T(md_copy), END };
__attribute__((constructor)) static void init(void) { add_ops(ops); on_reset(reset); }
