#include "drv.h"
#include <torsion/dsa.h>

static void r_txt(int ok, const void *p, size_t n) {
  const unsigned char *b = p;
  char *t;
  size_t i;
  if (!ok) { r_str("-"); return; }
  t = (char *)obuf(2 * n + 2);
  for (i = 0; i < n; i++) sprintf(t + 2 * i, "%02x", b[i]);
  t[2 * n] = '.'; t[2 * n + 1] = 0;
  r_str(t);
}
static void ds_params(void) {
  r_int(dsa_params_bits(P(0), L(0))); r_int(dsa_params_qbits(P(0), L(0))); r_int(dsa_params_verify(P(0), L(0)));
}
static void ds_pub(void) {
  r_int(dsa_pubkey_bits(P(0), L(0))); r_int(dsa_pubkey_qbits(P(0), L(0))); r_int(dsa_pubkey_verify(P(0), L(0)));
}
static void ds_priv(void) {
  r_int(dsa_privkey_bits(P(0), L(0))); r_int(dsa_privkey_qbits(P(0), L(0))); r_int(dsa_privkey_verify(P(0), L(0)));
}
#define CONV(name, f, max) static void name(void) { \
  unsigned char *o = obuf(max); size_t n = 0; int ok = f(o, &n, P(0), L(0)); r_txt(ok, o, n); }
CONV(ds_parimp, dsa_params_import, DSA_MAX_PARAMS_SIZE)
CONV(ds_parexp, dsa_params_export, DSA_MAX_PARAMS_SIZE)
CONV(ds_parcreate, dsa_params_create, DSA_MAX_PARAMS_SIZE)
CONV(ds_pubimp, dsa_pubkey_import, DSA_MAX_PUB_SIZE)
CONV(ds_pubexp, dsa_pubkey_export, DSA_MAX_PUB_SIZE)
CONV(ds_pubcreate, dsa_pubkey_create, DSA_MAX_PUB_SIZE)
CONV(ds_privimp, dsa_privkey_import, DSA_MAX_PRIV_SIZE)
CONV(ds_privexp, dsa_privkey_export, DSA_MAX_PRIV_SIZE)
static void ds_sigexp(void) {
  unsigned char *o = obuf(DSA_MAX_DER_SIZE);
  size_t n = 0;
  int ok = dsa_sig_export(o, &n, P(0), L(0), (size_t)I(1));
  r_txt(ok, o, n);
}
static void ds_sigimp(void) {
  unsigned char *o = obuf(2 * (size_t)I(1));
  size_t n = 0;
  int ok = dsa_sig_import(o, &n, P(0), L(0), (size_t)I(1));
  r_txt(ok, o, n);
}
static void ds_sign(void) {
  unsigned char *o = obuf(DSA_MAX_SIG_SIZE);
  size_t n = 0;
  int ok = dsa_sign(o, &n, P(0), L(0), P(1), L(1), P(2));
  r_txt(ok, o, n);
}
static void ds_verify(void) { r_int(dsa_verify(P(0), L(0), P(1), L(1), P(2), L(2))); }
static void ds_derive(void) {
  unsigned char *o = obuf(DSA_MAX_SIZE);
  size_t n = 0;
  int ok = dsa_derive(o, &n, P(0), L(0), P(1), L(1));
  r_txt(ok, o, n);
}
/* the seed first, then the size or the parameters */
static void ds_gen(void) {
  unsigned char *o = obuf(DSA_MAX_PARAMS_SIZE);
  size_t n = 0;
  int ok = dsa_params_generate(o, &n, (unsigned int)I(1), P(0));
  r_txt(ok, o, n);
}
static void ds_genpriv(void) {
  unsigned char *o = obuf(DSA_MAX_PRIV_SIZE);
  size_t n = 0;
  int ok = dsa_privkey_generate(o, &n, (unsigned int)I(1), P(0));
  r_txt(ok, o, n);
}
static void ds_create(void) {
  unsigned char *o = obuf(DSA_MAX_PRIV_SIZE);
  size_t n = 0;
  int ok = dsa_privkey_create(o, &n, P(1), L(1), P(0));
  r_txt(ok, o, n);
}
TABLE(ops) = {
  {"ds_params", ds_params}, {"ds_pub", ds_pub}, {"ds_priv", ds_priv}, {"ds_parimp", ds_parimp}, {"ds_parexp", ds_parexp},
  {"ds_parcreate", ds_parcreate}, {"ds_pubimp", ds_pubimp}, {"ds_pubexp", ds_pubexp}, {"ds_pubcreate", ds_pubcreate},
  {"ds_privimp", ds_privimp}, {"ds_privexp", ds_privexp}, {"ds_sigexp", ds_sigexp}, {"ds_sigimp", ds_sigimp},
  {"ds_sign", ds_sign}, {"ds_verify", ds_verify}, {"ds_derive", ds_derive}, {"ds_gen", ds_gen}, {"ds_genpriv", ds_genpriv},
  {"ds_create", ds_create}, END
};
__attribute__((constructor)) static void init(void) { add_ops(ops); }
