#include "drv.h"
#include <torsion/cipher.h>

static const struct { const char *name; cipher_id_t id; } ids[] = {
  {"aes128", CIPHER_AES128}, {"aes192", CIPHER_AES192}, {"aes256", CIPHER_AES256}, {"arc2", CIPHER_ARC2},
  {"arc2_gutmann", CIPHER_ARC2_GUTMANN}, {"arc2_40", CIPHER_ARC2_40}, {"arc2_64", CIPHER_ARC2_64},
  {"arc2_128", CIPHER_ARC2_128}, {"arc2_128_gutmann", CIPHER_ARC2_128_GUTMANN}, {"blowfish", CIPHER_BLOWFISH},
  {"camellia128", CIPHER_CAMELLIA128}, {"camellia192", CIPHER_CAMELLIA192}, {"camellia256", CIPHER_CAMELLIA256},
  {"cast5", CIPHER_CAST5}, {"des", CIPHER_DES}, {"des_ede", CIPHER_DES_EDE}, {"des_ede3", CIPHER_DES_EDE3},
  {"idea", CIPHER_IDEA}, {"serpent128", CIPHER_SERPENT128}, {"serpent192", CIPHER_SERPENT192},
  {"serpent256", CIPHER_SERPENT256}, {"twofish128", CIPHER_TWOFISH128}, {"twofish192", CIPHER_TWOFISH192},
  {"twofish256", CIPHER_TWOFISH256}, {NULL, 0}
};
static const struct { const char *name; mode_id_t id; } modes[] = {
  {"raw", CIPHER_MODE_RAW}, {"ecb", CIPHER_MODE_ECB}, {"cbc", CIPHER_MODE_CBC}, {"cts", CIPHER_MODE_CTS},
  {"xts", CIPHER_MODE_XTS}, {"ctr", CIPHER_MODE_CTR}, {"cfb", CIPHER_MODE_CFB}, {"ofb", CIPHER_MODE_OFB},
  {"gcm", CIPHER_MODE_GCM}, {"ccm", CIPHER_MODE_CCM}, {"eax", CIPHER_MODE_EAX}, {NULL, 0}
};
cipher_id_t cid(const char *s) {
  int i;
  for (i = 0; ids[i].name; i++) if (strcmp(s, ids[i].name) == 0) return ids[i].id;
  if (strcmp(s, "none") == 0) return (cipher_id_t)99;
  die("cipher");
  return 0;
}
mode_id_t mid(const char *s) {
  int i;
  for (i = 0; modes[i].name; i++) if (strcmp(s, modes[i].name) == 0) return modes[i].id;
  die("mode");
  return 0;
}

static cipher_t *cs[4];
static cipher_stream_t *ss[4];
static void reset(void) {
  int i;
  for (i = 0; i < 4; i++) { free(cs[i]); free(ss[i]); cs[i] = NULL; ss[i] = NULL; }
}
static cipher_t *C(int k) {
  int i = (int)I(k);
  if (!cs[i]) { cs[i] = malloc(sizeof(cipher_t)); memset(cs[i], 0xa5, sizeof(cipher_t)); }
  return cs[i];
}
static cipher_stream_t *T(int k) {
  int i = (int)I(k);
  if (!ss[i]) { ss[i] = malloc(sizeof(cipher_stream_t)); memset(ss[i], 0xa5, sizeof(cipher_stream_t)); }
  return ss[i];
}

static void c_sizes(void) { r_int(cipher_key_size(cid(S(0)))); r_int(cipher_block_size(cid(S(0)))); }
static void c_init(void) { r_int(cipher_init(C(0), cid(S(1)), P(2), L(2))); }
static void c_crypt(int enc) {
  unsigned char *o = obuf(L(1));
  const unsigned char *in = P(1);
  if (I(2)) { memcpy(o, in, L(1)); in = o; }
  if (enc) cipher_encrypt(C(0), o, in);
  else cipher_decrypt(C(0), o, in);
  r_hex(o, L(1));
}
static void c_enc(void) { c_crypt(1); }
static void c_dec(void) { c_crypt(0); }
/* named interfaces: id key block */
static void c_named(void) {
  cipher_id_t id = cid(S(0));
  unsigned char *e = obuf(L(2)), *d = obuf(L(2));
  const unsigned char *k = P(1), *b = P(2);
  unsigned int bits = (unsigned int)L(1) * 8;
  cipher_t *x = malloc(sizeof(*x));
  memset(x, 0x5a, sizeof(*x));
  switch (id) {
    case CIPHER_AES128: case CIPHER_AES192: case CIPHER_AES256:
      aes_init_encrypt(&x->ctx.aes, bits, k);
      aes_encrypt(&x->ctx.aes, e, b);
      aes_init_decrypt(&x->ctx.aes);
      aes_decrypt(&x->ctx.aes, d, b);
      break;
    case CIPHER_BLOWFISH:
      blowfish_init(&x->ctx.blowfish, k, L(1), NULL, 0);
      blowfish_encrypt(&x->ctx.blowfish, e, b);
      blowfish_decrypt(&x->ctx.blowfish, d, b);
      break;
    case CIPHER_CAMELLIA128: case CIPHER_CAMELLIA192: case CIPHER_CAMELLIA256:
      camellia_init(&x->ctx.camellia, bits, k);
      camellia_encrypt(&x->ctx.camellia, e, b);
      camellia_decrypt(&x->ctx.camellia, d, b);
      break;
    case CIPHER_CAST5:
      cast5_init(&x->ctx.cast5, k);
      cast5_encrypt(&x->ctx.cast5, e, b);
      cast5_decrypt(&x->ctx.cast5, d, b);
      break;
    case CIPHER_DES:
      des_init(&x->ctx.des, k);
      des_encrypt(&x->ctx.des, e, b);
      des_decrypt(&x->ctx.des, d, b);
      break;
    case CIPHER_DES_EDE:
      des_ede_init(&x->ctx.ede, k);
      des_ede_encrypt(&x->ctx.ede, e, b);
      des_ede_decrypt(&x->ctx.ede, d, b);
      break;
    case CIPHER_DES_EDE3:
      des_ede3_init(&x->ctx.ede3, k);
      des_ede3_encrypt(&x->ctx.ede3, e, b);
      des_ede3_decrypt(&x->ctx.ede3, d, b);
      break;
    case CIPHER_IDEA:
      idea_init_encrypt(&x->ctx.idea, k);
      idea_encrypt(&x->ctx.idea, e, b);
      idea_init_decrypt(&x->ctx.idea);
      idea_decrypt(&x->ctx.idea, d, b);
      break;
    case CIPHER_SERPENT128: case CIPHER_SERPENT192: case CIPHER_SERPENT256:
      serpent_init(&x->ctx.serpent, bits, k);
      serpent_encrypt(&x->ctx.serpent, e, b);
      serpent_decrypt(&x->ctx.serpent, d, b);
      break;
    case CIPHER_TWOFISH128: case CIPHER_TWOFISH192: case CIPHER_TWOFISH256:
      twofish_init(&x->ctx.twofish, bits, k);
      twofish_encrypt(&x->ctx.twofish, e, b);
      twofish_decrypt(&x->ctx.twofish, d, b);
      break;
    default: die("named");
  }
  free(x);
  r_hex(e, L(2));
  r_hex(d, L(2));
}
static void arc2_ekb(void) {
  arc2_t *x = malloc(sizeof(*x));
  unsigned char *e = obuf(8), *d = obuf(8);
  arc2_init(x, P(0), L(0), (unsigned int)I(1));
  arc2_encrypt(x, e, P(2));
  arc2_decrypt(x, d, P(2));
  free(x);
  r_hex(e, 8);
  r_hex(d, 8);
}
static void bf_salt(void) {
  blowfish_t *x = malloc(sizeof(*x));
  unsigned char *e = obuf(8), *d = obuf(8);
  blowfish_init(x, P(0), L(0), P(1), L(1));
  blowfish_encrypt(x, e, P(2));
  blowfish_decrypt(x, d, P(2));
  free(x);
  r_hex(e, 8);
  r_hex(d, 8);
}
static void p7_pad(void) {
  size_t n = (size_t)I(1);
  unsigned char *o = obuf(n);
  pkcs7_pad(o, P(0), L(0), n);
  r_hex(o, n);
}
static void p7_unpad(void) {
  unsigned char *o = obuf(L(0));
  size_t n = 777;
  int r = pkcs7_unpad(o, &n, P(0), L(0));
  r_int(r);
  if (n > L(0)) r_str("BADLEN");
  else r_hex(o, r ? n : 0);
  if (!r && n) r_str("LEN");
}

/* steal/unsteal on the block level: mode enc id key iv last block */
static void steal(void) {
  mode_id_t m = mid(S(0));
  int enc = (int)I(1);
  cipher_t *c = malloc(sizeof(*c));
  cipher_id_t id = cid(S(2));
  size_t n = cipher_block_size(id);
  unsigned char *last = obuf(n), *blk = obuf(L(6));
  memcpy(last, P(5), n);
  memcpy(blk, P(6), L(6));
  if (!cipher_init(c, id, P(3), L(3))) die("steal key");
  if (m == CIPHER_MODE_ECB) {
    if (enc) ecb_steal(c, last, blk, L(6));
    else ecb_unsteal(c, last, blk, L(6));
  } else die("steal");
  free(c);
  r_hex(last, n);
  r_hex(blk, L(6));
}

static void s_init(void) {
  r_int(cipher_stream_init(T(0), cid(S(1)), mid(S(2)), (int)I(3), P(4), L(4), P(5), L(5)));
}
static void s_pad(void) { r_int(cipher_stream_set_padding(T(0), (int)I(1))); }
static void s_aad(void) { r_int(cipher_stream_set_aad(T(0), P(1), L(1))); }
static void s_ccm(void) { r_int(cipher_stream_set_ccm(T(0), (size_t)I(1), (size_t)I(2), P(3), L(3))); }
static void s_settag(void) { r_int(cipher_stream_set_tag(T(0), P(1), L(1))); }
static void s_gettag(void) {
  size_t n = 77;
  unsigned char *t = obuf(CIPHER_MAX_TAG_SIZE);
  int r = cipher_stream_get_tag(T(0), t, &n);
  r_int(r);
  r_hex(t, n);
}
static void s_update(void) {
  cipher_stream_t *t = T(0);
  size_t n = 7777, m = cipher_stream_update_size(t, L(1));
  unsigned char *o = obuf(m);
  cipher_stream_update(t, o, &n, P(1), L(1));
  r_int(m);
  r_hex(o, n > m ? m : n);
  if (n > m) r_str("TOOLONG");
}
static void s_crypt(void) {
  cipher_stream_t *t = T(0);
  unsigned char *o = obuf(L(1));
  const unsigned char *in = P(1);
  int r;
  if (I(2)) { memcpy(o, in, L(1)); in = o; }
  r = cipher_stream_crypt(t, o, in, L(1));
  r_int(r);
  r_hex(o, r ? L(1) : 0);
}
static void s_final(void) {
  cipher_stream_t *t = T(0);
  size_t n = 7777, m = cipher_stream_final_size(t);
  unsigned char *o = obuf(m);
  int r = cipher_stream_final(t, o, &n);
  r_int(m);
  r_int(r);
  r_hex(o, n > m ? m : n);
  if (n > m) r_str("TOOLONG");
}
static void s_copy(void) { memcpy(T(0), T(1), sizeof(cipher_stream_t)); r_str("ok"); }
/* enc id mode key iv data */
static void s_static(void) {
  size_t n = 7777;
  unsigned char *o = obuf(L(5) + 32);
  int r;
  if (I(0)) r = cipher_static_encrypt(o, &n, cid(S(1)), mid(S(2)), P(3), L(3), P(4), L(4), P(5), L(5));
  else r = cipher_static_decrypt(o, &n, cid(S(1)), mid(S(2)), P(3), L(3), P(4), L(4), P(5), L(5));
  r_int(r);
  r_hex(o, n > L(5) + 32 ? 0 : n);
}
/* every cutting of the data into two and (with step) three pieces: enc id mode key iv data aad tag step -> ret and bytes, or DIFF */
static void s_cuts(void) {
  size_t n = L(5), a, b, step = (size_t)I(8);
  unsigned char *ref = obuf(n + 64), *o = obuf(n + 64);
  size_t reflen = 0, cuts = 0;
  int refret = -1;
  cipher_stream_t *t = malloc(sizeof(*t));
  mode_id_t m = mid(S(2));
  for (a = 0; a <= n; a++) {
    for (b = a; b <= n; b += (b == a || b + step > n) ? (b < n && b + step > n ? n - b : step) : step) {
      size_t p = 0, q = 0;
      int r;
      const unsigned char *cut[4];
      size_t len[3];
      int i;
      if (!cipher_stream_init(t, cid(S(1)), m, (int)I(0), P(3), L(3), P(4), L(4))) die("s_cuts init");
      if (m == CIPHER_MODE_GCM || m == CIPHER_MODE_EAX) {
        size_t h = L(6) ? a % (L(6) + 1) : 0;
        if (!cipher_stream_set_aad(t, P(6), h) || !cipher_stream_set_aad(t, P(6) + h, L(6) - h)) die("s_cuts aad");
      }
      if (m == CIPHER_MODE_CCM && !cipher_stream_set_ccm(t, n, L(7), P(6), L(6))) die("s_cuts ccm");
      if (m >= CIPHER_MODE_GCM && !I(0) && !cipher_stream_set_tag(t, P(7), L(7))) die("s_cuts tag");
      cut[0] = P(5); cut[1] = P(5) + a; cut[2] = P(5) + b;
      len[0] = a; len[1] = b - a; len[2] = n - b;
      for (i = 0; i < 3; i++) {
        cipher_stream_update(t, o + p, &q, cut[i], len[i]);
        p += q;
      }
      r = cipher_stream_final(t, o + p, &q);
      p += q;
      if (m >= CIPHER_MODE_GCM && I(0)) {
        cipher_stream_get_tag(t, o + p, &q);
        p += q;
      }
      if (refret == -1) {
        refret = r;
        reflen = p;
        memcpy(ref, o, p);
      } else if (r != refret || p != reflen || memcmp(o, ref, p) != 0) {
        char buf[100];
        sprintf(buf, "DIFF:%lu:%lu", (unsigned long)a, (unsigned long)b);
        r_str(buf);
      }
      cuts++;
      if (b == n) break;
    }
  }
  free(t);
  r_int(refret);
  r_hex(ref, reflen);
}

TABLE(ops) = {
  {"c_sizes", c_sizes}, {"c_init", c_init}, {"c_enc", c_enc}, {"c_dec", c_dec}, {"c_named", c_named},
  {"arc2_ekb", arc2_ekb}, {"bf_salt", bf_salt}, {"p7_pad", p7_pad}, {"p7_unpad", p7_unpad}, {"steal", steal},
  {"s_init", s_init}, {"s_pad", s_pad}, {"s_aad", s_aad}, {"s_ccm", s_ccm}, {"s_settag", s_settag},
  {"s_gettag", s_gettag}, {"s_update", s_update}, {"s_crypt", s_crypt}, {"s_final", s_final}, {"s_copy", s_copy},
  {"s_static", s_static}, {"s_cuts", s_cuts}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); on_reset(reset); }
