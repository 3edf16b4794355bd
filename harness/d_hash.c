#define _GNU_SOURCE
#include "drv.h"
#include <sys/mman.h>
#include <unistd.h>
#include <torsion/hash.h>
#include <torsion/util.h>

/* Named interfaces.  Slot contexts are kept in a union big enough for each. */
typedef union any {
  blake2b_t blake2b; blake2s_t blake2s; gost94_t gost94; sha256_t sha256; keccak_t keccak; md2_t md2; md5_t md5;
  md5sha1_t md5sha1; ripemd160_t ripemd160; sha1_t sha1; sha512_t sha512; whirlpool_t whirlpool;
} any_t;

typedef struct slot {
  int mode;                /* 0 empty, 1 generic, 2 named, 3 hmac, 4 raw keccak, 5 raw blake2b, 6 raw blake2s */
  int id;
  hash_t h;
  any_t a;
  hmac_t m;
} slot_t;

static slot_t *slot[8];
static slot_t *sl(int k) {
  int i = (int)I(k);
  if (!slot[i]) slot[i] = calloc(1, sizeof(slot_t));
  return slot[i];
}
static void reset(void) {
  int i;
  for (i = 0; i < 8; i++) { free(slot[i]); slot[i] = NULL; }
}

static const struct { const char *name; hash_id_t id; } ids[] = {
  {"blake2b160", HASH_BLAKE2B_160},
  {"blake2b256", HASH_BLAKE2B_256},
  {"blake2b384", HASH_BLAKE2B_384},
  {"blake2b512", HASH_BLAKE2B_512},
  {"blake2s128", HASH_BLAKE2S_128},
  {"blake2s160", HASH_BLAKE2S_160},
  {"blake2s224", HASH_BLAKE2S_224},
  {"blake2s256", HASH_BLAKE2S_256},
  {"gost94", HASH_GOST94},
  {"hash160", HASH_HASH160},
  {"hash256", HASH_HASH256},
  {"keccak224", HASH_KECCAK224},
  {"keccak256", HASH_KECCAK256},
  {"keccak384", HASH_KECCAK384},
  {"keccak512", HASH_KECCAK512},
  {"md2", HASH_MD2},
  {"md4", HASH_MD4},
  {"md5", HASH_MD5},
  {"md5sha1", HASH_MD5SHA1},
  {"ripemd160", HASH_RIPEMD160},
  {"sha1", HASH_SHA1},
  {"sha224", HASH_SHA224},
  {"sha256", HASH_SHA256},
  {"sha384", HASH_SHA384},
  {"sha512", HASH_SHA512},
  {"sha3_224", HASH_SHA3_224},
  {"sha3_256", HASH_SHA3_256},
  {"sha3_384", HASH_SHA3_384},
  {"sha3_512", HASH_SHA3_512},
  {"shake128", HASH_SHAKE128},
  {"shake256", HASH_SHAKE256},
  {"whirlpool", HASH_WHIRLPOOL},
  {"none", HASH_NONE},
  {NULL, 0}
};
int hash_by_name(const char *s) {
  int i;
  for (i = 0; ids[i].name; i++)
    if (strcmp(ids[i].name, s) == 0) return ids[i].id;
  die("unknown hash");
  return -1;
}
static void n_init(slot_t *s, const unsigned char *key, size_t keylen) {
  switch (s->id) {
    case HASH_BLAKE2B_160: blake2b160_init(&s->a.blake2b, key, keylen); break;
    case HASH_BLAKE2B_256: blake2b256_init(&s->a.blake2b, key, keylen); break;
    case HASH_BLAKE2B_384: blake2b384_init(&s->a.blake2b, key, keylen); break;
    case HASH_BLAKE2B_512: blake2b512_init(&s->a.blake2b, key, keylen); break;
    case HASH_BLAKE2S_128: blake2s128_init(&s->a.blake2s, key, keylen); break;
    case HASH_BLAKE2S_160: blake2s160_init(&s->a.blake2s, key, keylen); break;
    case HASH_BLAKE2S_224: blake2s224_init(&s->a.blake2s, key, keylen); break;
    case HASH_BLAKE2S_256: blake2s256_init(&s->a.blake2s, key, keylen); break;
    case HASH_GOST94: gost94_init(&s->a.gost94); break;
    case HASH_HASH160: hash160_init(&s->a.sha256); break;
    case HASH_HASH256: hash256_init(&s->a.sha256); break;
    case HASH_KECCAK224: keccak224_init(&s->a.keccak); break;
    case HASH_KECCAK256: keccak256_init(&s->a.keccak); break;
    case HASH_KECCAK384: keccak384_init(&s->a.keccak); break;
    case HASH_KECCAK512: keccak512_init(&s->a.keccak); break;
    case HASH_MD2: md2_init(&s->a.md2); break;
    case HASH_MD4: md4_init(&s->a.md5); break;
    case HASH_MD5: md5_init(&s->a.md5); break;
    case HASH_MD5SHA1: md5sha1_init(&s->a.md5sha1); break;
    case HASH_RIPEMD160: ripemd160_init(&s->a.ripemd160); break;
    case HASH_SHA1: sha1_init(&s->a.sha1); break;
    case HASH_SHA224: sha224_init(&s->a.sha256); break;
    case HASH_SHA256: sha256_init(&s->a.sha256); break;
    case HASH_SHA384: sha384_init(&s->a.sha512); break;
    case HASH_SHA512: sha512_init(&s->a.sha512); break;
    case HASH_SHA3_224: sha3_224_init(&s->a.keccak); break;
    case HASH_SHA3_256: sha3_256_init(&s->a.keccak); break;
    case HASH_SHA3_384: sha3_384_init(&s->a.keccak); break;
    case HASH_SHA3_512: sha3_512_init(&s->a.keccak); break;
    case HASH_SHAKE128: shake128_init(&s->a.keccak); break;
    case HASH_SHAKE256: shake256_init(&s->a.keccak); break;
    case HASH_WHIRLPOOL: whirlpool_init(&s->a.whirlpool); break;
    default: die("id");
  }
}
static void n_update(slot_t *s, const void *p, size_t n) {
  switch (s->id) {
    case HASH_BLAKE2B_160: blake2b160_update(&s->a.blake2b, p, n); break;
    case HASH_BLAKE2B_256: blake2b256_update(&s->a.blake2b, p, n); break;
    case HASH_BLAKE2B_384: blake2b384_update(&s->a.blake2b, p, n); break;
    case HASH_BLAKE2B_512: blake2b512_update(&s->a.blake2b, p, n); break;
    case HASH_BLAKE2S_128: blake2s128_update(&s->a.blake2s, p, n); break;
    case HASH_BLAKE2S_160: blake2s160_update(&s->a.blake2s, p, n); break;
    case HASH_BLAKE2S_224: blake2s224_update(&s->a.blake2s, p, n); break;
    case HASH_BLAKE2S_256: blake2s256_update(&s->a.blake2s, p, n); break;
    case HASH_GOST94: gost94_update(&s->a.gost94, p, n); break;
    case HASH_HASH160: hash160_update(&s->a.sha256, p, n); break;
    case HASH_HASH256: hash256_update(&s->a.sha256, p, n); break;
    case HASH_KECCAK224: keccak224_update(&s->a.keccak, p, n); break;
    case HASH_KECCAK256: keccak256_update(&s->a.keccak, p, n); break;
    case HASH_KECCAK384: keccak384_update(&s->a.keccak, p, n); break;
    case HASH_KECCAK512: keccak512_update(&s->a.keccak, p, n); break;
    case HASH_MD2: md2_update(&s->a.md2, p, n); break;
    case HASH_MD4: md4_update(&s->a.md5, p, n); break;
    case HASH_MD5: md5_update(&s->a.md5, p, n); break;
    case HASH_MD5SHA1: md5sha1_update(&s->a.md5sha1, p, n); break;
    case HASH_RIPEMD160: ripemd160_update(&s->a.ripemd160, p, n); break;
    case HASH_SHA1: sha1_update(&s->a.sha1, p, n); break;
    case HASH_SHA224: sha224_update(&s->a.sha256, p, n); break;
    case HASH_SHA256: sha256_update(&s->a.sha256, p, n); break;
    case HASH_SHA384: sha384_update(&s->a.sha512, p, n); break;
    case HASH_SHA512: sha512_update(&s->a.sha512, p, n); break;
    case HASH_SHA3_224: sha3_224_update(&s->a.keccak, p, n); break;
    case HASH_SHA3_256: sha3_256_update(&s->a.keccak, p, n); break;
    case HASH_SHA3_384: sha3_384_update(&s->a.keccak, p, n); break;
    case HASH_SHA3_512: sha3_512_update(&s->a.keccak, p, n); break;
    case HASH_SHAKE128: shake128_update(&s->a.keccak, p, n); break;
    case HASH_SHAKE256: shake256_update(&s->a.keccak, p, n); break;
    case HASH_WHIRLPOOL: whirlpool_update(&s->a.whirlpool, p, n); break;
    default: die("id");
  }
}
static void n_final(slot_t *s, unsigned char *out, size_t n) {
  switch (s->id) {
    case HASH_BLAKE2B_160: blake2b160_final(&s->a.blake2b, out); break;
    case HASH_BLAKE2B_256: blake2b256_final(&s->a.blake2b, out); break;
    case HASH_BLAKE2B_384: blake2b384_final(&s->a.blake2b, out); break;
    case HASH_BLAKE2B_512: blake2b512_final(&s->a.blake2b, out); break;
    case HASH_BLAKE2S_128: blake2s128_final(&s->a.blake2s, out); break;
    case HASH_BLAKE2S_160: blake2s160_final(&s->a.blake2s, out); break;
    case HASH_BLAKE2S_224: blake2s224_final(&s->a.blake2s, out); break;
    case HASH_BLAKE2S_256: blake2s256_final(&s->a.blake2s, out); break;
    case HASH_GOST94: gost94_final(&s->a.gost94, out); break;
    case HASH_HASH160: hash160_final(&s->a.sha256, out); break;
    case HASH_HASH256: hash256_final(&s->a.sha256, out); break;
    case HASH_KECCAK224: keccak224_final(&s->a.keccak, out); break;
    case HASH_KECCAK256: keccak256_final(&s->a.keccak, out); break;
    case HASH_KECCAK384: keccak384_final(&s->a.keccak, out); break;
    case HASH_KECCAK512: keccak512_final(&s->a.keccak, out); break;
    case HASH_MD2: md2_final(&s->a.md2, out); break;
    case HASH_MD4: md4_final(&s->a.md5, out); break;
    case HASH_MD5: md5_final(&s->a.md5, out); break;
    case HASH_MD5SHA1: md5sha1_final(&s->a.md5sha1, out); break;
    case HASH_RIPEMD160: ripemd160_final(&s->a.ripemd160, out); break;
    case HASH_SHA1: sha1_final(&s->a.sha1, out); break;
    case HASH_SHA224: sha224_final(&s->a.sha256, out); break;
    case HASH_SHA256: sha256_final(&s->a.sha256, out); break;
    case HASH_SHA384: sha384_final(&s->a.sha512, out); break;
    case HASH_SHA512: sha512_final(&s->a.sha512, out); break;
    case HASH_SHA3_224: sha3_224_final(&s->a.keccak, out); break;
    case HASH_SHA3_256: sha3_256_final(&s->a.keccak, out); break;
    case HASH_SHA3_384: sha3_384_final(&s->a.keccak, out); break;
    case HASH_SHA3_512: sha3_512_final(&s->a.keccak, out); break;
    case HASH_SHAKE128: shake128_final(&s->a.keccak, out, n); break;
    case HASH_SHAKE256: shake256_final(&s->a.keccak, out, n); break;
    case HASH_WHIRLPOOL: whirlpool_final(&s->a.whirlpool, out); break;
    default: die("id");
  }
}
static void upd(slot_t *s, const void *p, size_t n) {
  switch (s->mode) {
    case 1: hash_update(&s->h, p, n); break;
    case 2: n_update(s, p, n); break;
    case 3: hmac_update(&s->m, p, n); break;
    case 4: keccak_update(&s->a.keccak, p, n); break;
    case 5: blake2b_update(&s->a.blake2b, p, n); break;
    case 6: blake2s_update(&s->a.blake2s, p, n); break;
    default: die("slot not initialised");
  }
}
/* hash_init slot id */
static void o_init(void) { slot_t *s = sl(0); s->mode = 1; s->id = hash_by_name(S(1)); hash_init(&s->h, s->id); r_str("ok"); }
/* named_init slot id key */
static void o_ninit(void) { slot_t *s = sl(0); s->mode = 2; s->id = hash_by_name(S(1)); n_init(s, P(2), L(2)); r_str("ok"); }
/* hmac_init slot id key */
static void o_minit(void) { slot_t *s = sl(0); s->mode = 3; s->id = hash_by_name(S(1)); hmac_init(&s->m, s->id, P(2), L(2)); r_str("ok"); }
/* keccak_init slot bits */
static void o_kinit(void) { slot_t *s = sl(0); s->mode = 4; keccak_init(&s->a.keccak, I(1)); r_str("ok"); }
/* blake2x_init slot outlen key */
static void o_b2b(void) { slot_t *s = sl(0); s->mode = 5; s->id = I(1); blake2b_init(&s->a.blake2b, I(1), P(2), L(2)); r_str("ok"); }
static void o_b2s(void) { slot_t *s = sl(0); s->mode = 6; s->id = I(1); blake2s_init(&s->a.blake2s, I(1), P(2), L(2)); r_str("ok"); }
/* hash_update slot bytes */
static void o_upd(void) { upd(sl(0), P(1), L(1)); r_str("ok"); }
/* hash_final slot outlen  (outlen matters for extendable output) */
static void fin(slot_t *s, size_t n) {
  unsigned char *o;
  size_t hs;
  switch (s->mode) {
    case 1: case 2:
      hs = hash_output_size(s->id);
      if (s->id == HASH_SHAKE128 || s->id == HASH_SHAKE256) hs = n ? n : hs;
      o = obuf(hs);
      if (s->mode == 1) hash_final(&s->h, o, n); else n_final(s, o, n);
      r_hex(o, hs);
      break;
    case 3: hs = hash_output_size(s->id); o = obuf(hs); hmac_final(&s->m, o); r_hex(o, hs); break;
    case 4: o = obuf(n); keccak_final(&s->a.keccak, o, I(2), n); r_hex(o, n); break;
    case 5: o = obuf(s->id); blake2b_final(&s->a.blake2b, o); r_hex(o, s->id); break;
    case 6: o = obuf(s->id); blake2s_final(&s->a.blake2s, o); r_hex(o, s->id); break;
    default: die("slot not initialised");
  }
  s->mode = 0;
}
static void o_fin(void) { fin(sl(0), I(1)); }
/* hash_copy to from: contexts are plain values */
static void o_copy(void) { slot_t *d = sl(0), *s = sl(1); memcpy(d, s, sizeof(*d)); r_str("ok"); }
static void o_sizes(void) {
  int id = hash_by_name(S(0));
  r_int(hash_has_backend(id)); r_int(hash_output_size(id)); r_int(hash_block_size(id));
}
/* hash_cuts iface id key msg: every cutting into two and three pieces (third cut sampled by stride); distinct digests */
static void o_cuts(void) {
  int hm = (int)I(0), id = hash_by_name(S(1)), cnt = 0, k;
  size_t n = L(3), i, j, stride = I(4), hs = hash_output_size(id);
  unsigned char seen[4][64];
  unsigned long runs = 0;
  slot_t *s = calloc(1, sizeof(slot_t));
  for (i = 0; i <= n; i++) {
    for (j = i; j <= n; j += (j == i || j + stride > n) ? 1 : stride) {
      unsigned char o[64];
      s->id = id;
      s->mode = hm;
      if (hm == 1) hash_init(&s->h, id);
      else if (hm == 2) n_init(s, P(2), L(2));
      else hmac_init(&s->m, id, P(2), L(2));
      upd(s, P(3), i);
      upd(s, P(3) + i, j - i);
      upd(s, P(3) + j, n - j);
      if (hm == 1) hash_final(&s->h, o, hs);
      else if (hm == 2) n_final(s, o, hs);
      else hmac_final(&s->m, o);
      runs++;
      for (k = 0; k < cnt; k++) if (memcmp(seen[k], o, hs) == 0) break;
      if (k == cnt && cnt < 4) memcpy(seen[cnt++], o, hs);
    }
  }
  free(s);
  for (k = 0; k < cnt; k++) r_hex(seen[k], hs);
}
/* n bytes (a multiple of 64 MiB) of address space showing the same 64 MiB of memory */
static unsigned char *rep_map(int byte, uint64_t n) {
  size_t unit = 64 << 20;
  uint64_t o;
  int fd = memfd_create("rep", 0);
  unsigned char *b = mmap(NULL, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (fd < 0 || b == MAP_FAILED || ftruncate(fd, unit)) die("mapping");
  for (o = 0; o < n; o += unit)
    if (mmap(b + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) die("mapping");
  memset(b, byte, unit);
  close(fd);
  return b;
}
/* hash_repeat id byte count(in KiB) extra: digest of (byte * count*1024) then extra bytes */
static void o_rep(void) {
  int id = hash_by_name(S(0));
  size_t kib = I(2), i, hs = hash_output_size(id), chunk = I(4);
  unsigned char *b = chunk ? malloc(chunk) : rep_map(I(1), (uint64_t)kib * 1024), *o = obuf(hs);
  uint64_t left = (uint64_t)kib * 1024;
  hash_t *h = malloc(sizeof(hash_t));
  if (chunk) memset(b, I(1), chunk);
  else chunk = (uint64_t)kib * 1024;          /* everything in a single call */
  hash_init(h, id);
  while (left) { size_t n = left < chunk ? left : chunk; hash_update(h, b, n); left -= n; }
  hash_update(h, P(3), L(3));
  hash_final(h, o, hs);
  r_hex(o, hs);
  if (I(4)) free(b); else munmap(b, (uint64_t)kib * 1024);
  free(h);
}
TABLE(ops) = {
  {"hash_init", o_init}, {"named_init", o_ninit}, {"hmac_init", o_minit}, {"keccak_init", o_kinit},
  {"blake2b_init", o_b2b}, {"blake2s_init", o_b2s}, {"hash_update", o_upd}, {"hash_final", o_fin}, {"hash_copy", o_copy},
  {"hash_sizes", o_sizes}, {"hash_cuts", o_cuts}, {"hash_repeat", o_rep}, END
};
__attribute__((constructor)) static void register_ops(void) { add_ops(ops); on_reset(reset); }
