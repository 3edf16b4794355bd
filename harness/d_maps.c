#include "ecc_common.h"

/* families: wm ECDSA keys, xm x-only keys, mm Montgomery keys, em EdDSA keys, rm elements of prime-order groups */
#define OUT(sz) unsigned char *o = obuf(sz); size_t n = (sz); int ok
#define RET r_txt(ok, o, n)
#define WF wei_curve_field_size(wei(0))
#define MF mont_curve_field_size(mont(0))
#define EF edwards_curve_field_size(edw(0))
#define HINT(i) ((unsigned)(i) | (unsigned)I(2) << 4 | (unsigned)I(3) << 8)
static void wm_map(void) { OUT(ecdsa_pubkey_size(wei(0), (int)I(2))) = 1; ecdsa_pubkey_from_uniform(wei(0), o, &n, P(1), (int)I(2)); RET; }
static void wm_hash(void) { OUT(ecdsa_pubkey_size(wei(0), (int)I(2))); ok = ecdsa_pubkey_from_hash(wei(0), o, &n, P(1), (int)I(2)); RET; }
static void wm_tou(void) {
  int i;
  for (i = 0; i < 16; i++) { OUT(WF) = ecdsa_pubkey_to_uniform(wei(0), o, P(1), L(1), HINT(i)); RET; }
}
static void wm_toh(void) { OUT(2 * WF) = ecdsa_pubkey_to_hash(wei(0), o, P(1), L(1), (unsigned)I(2), P(3)); RET; }
static void xm_map(void) { OUT(WF) = 1; bip340_pubkey_from_uniform(wei(0), o, P(1)); RET; }
static void xm_hash(void) { OUT(WF) = bip340_pubkey_from_hash(wei(0), o, P(1)); RET; }
static void xm_tou(void) {
  int i;
  for (i = 0; i < 16; i++) { OUT(WF) = bip340_pubkey_to_uniform(wei(0), o, P(1), HINT(i)); RET; }
}
static void xm_toh(void) { OUT(2 * WF) = bip340_pubkey_to_hash(wei(0), o, P(1), (unsigned)I(2), P(3)); RET; }
static void mm_map(void) { OUT(MF) = 1; ecdh_pubkey_from_uniform(mont(0), o, P(1)); RET; }
static void mm_hash(void) { OUT(MF) = ecdh_pubkey_from_hash(mont(0), o, P(1), (int)I(2)); RET; }
static void mm_tou(void) {
  int i;
  for (i = 0; i < 16; i++) { OUT(MF) = ecdh_pubkey_to_uniform(mont(0), o, P(1), HINT(i)); RET; }
}
static void mm_toh(void) { OUT(2 * MF) = ecdh_pubkey_to_hash(mont(0), o, P(1), (unsigned)I(2), P(3)); RET; }
static void em_map(void) { OUT(eddsa_pubkey_size(edw(0))) = 1; eddsa_pubkey_from_uniform(edw(0), o, P(1)); RET; }
static void em_hash(void) { OUT(eddsa_pubkey_size(edw(0))) = 1; eddsa_pubkey_from_hash(edw(0), o, P(1), (int)I(2)); RET; }
static void em_tou(void) {
  int i;
  for (i = 0; i < 16; i++) { OUT(EF) = eddsa_pubkey_to_uniform(edw(0), o, P(1), HINT(i)); RET; }
}
static void em_toh(void) { OUT(2 * EF) = eddsa_pubkey_to_hash(edw(0), o, P(1), (unsigned)I(2), P(3)); RET; }
static void rm_map(void) { OUT(EF) = 1; ristretto_pubkey_from_uniform(edw(0), o, P(1)); RET; }
static void rm_hash(void) { OUT(EF) = 1; ristretto_pubkey_from_hash(edw(0), o, P(1)); RET; }
static void rm_tou(void) {
  int i;
  for (i = 0; i < 16; i++) { OUT(EF) = ristretto_pubkey_to_uniform(edw(0), o, P(1), HINT(i)); RET; }
}
static void rm_toh(void) { OUT(2 * EF) = ristretto_pubkey_to_hash(edw(0), o, P(1), P(3)); RET; }
TABLE(ops) = {
  {"wm_map", wm_map}, {"wm_hash", wm_hash}, {"wm_tou", wm_tou}, {"wm_toh", wm_toh}, {"xm_map", xm_map}, {"xm_hash", xm_hash}, {"xm_tou", xm_tou}, {"xm_toh", xm_toh},
  {"mm_map", mm_map}, {"mm_hash", mm_hash}, {"mm_tou", mm_tou}, {"mm_toh", mm_toh}, {"em_map", em_map}, {"em_hash", em_hash}, {"em_tou", em_tou}, {"em_toh", em_toh},
  {"rm_map", rm_map}, {"rm_hash", rm_hash}, {"rm_tou", rm_tou}, {"rm_toh", rm_toh}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
