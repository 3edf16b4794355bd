From 6d6448b26ee07d98b6a98807cc2332446eb48b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:46 +0000
Subject: [PATCH 01/18] fix: squeeze further blocks when a Keccak output
 exceeds the rate

Asking for more output than the rate returned bytes of the capacity
instead of permuting the state and continuing to squeeze. SHAKE128 was
wrong beyond 168 bytes and SHAKE256 beyond 136 bytes.
---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index cbe0695..ad6bd62 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -1106,6 +1106,16 @@ keccak_final(keccak_t *ctx, unsigned char *out, unsigned int pad, size_t len) {
 
   keccak_transform(ctx, ctx->block);
 
+  while (len > ctx->bs) {
+    for (i = 0; i < ctx->bs / 8; i++)
+      write64le(out + i * 8, ctx->state[i]);
+
+    out += ctx->bs;
+    len -= ctx->bs;
+
+    keccak_compress(ctx);
+  }
+
   count = len >> 3;
 
   for (i = 0; i < count; i++)
-- 
2.43.0


From 341c94e928743d975ddb5e05781c630c3e51e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:42 +0000
Subject: [PATCH 02/18] fix: do not substitute the first RC2 key byte twice

With an effective key size of 1017 to 1023 bits the first byte of the
expanded key went through the substitution table twice, which gives a
different cipher from RFC 2268. Only substitute it when no reduction
step follows.
---
 src/cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cipher.c b/src/cipher.c
index 659f392..18e9b04 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -1099,8 +1099,6 @@ arc2_init(arc2_t *ctx,
   for (i = key_len; i < 128; i++)
     L[i] = PI[(L[i - key_len] + L[i - 1]) & 0xff];
 
-  L[0] = PI[L[0]];
-
   if (ekb > 0 && ekb < 1024) {
     len = (ekb + 7) >> 3;
 
@@ -1113,6 +1111,8 @@ arc2_init(arc2_t *ctx,
       x = PI[x ^ L[i + len]];
       L[i] = x;
     }
+  } else {
+    L[0] = PI[L[0]];
   }
 
   for (i = 0; i < 64; i++)
-- 
2.43.0


From 0f438c9fa0bf1f48e5e0ede37c8bf34e887dec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:42 +0000
Subject: [PATCH 03/18] fix: size the CCM length field from short nonces

For nonces of 7 to 12 bytes the length field must grow to fill the
block (L = 15 - nonce length). The flags byte still announced the
smallest field for the message and the counter blocks were laid out
for it, so short-nonce messages did not match RFC 3610.
---
 src/cipher.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cipher.c b/src/cipher.c
index 18e9b04..debf7f0 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -6885,6 +6885,12 @@ ccm_setup(ccm_t *mode, const cipher_t *cipher,
   if (iv_len < 7 || iv_len > 13)
     return 0;
 
+  /* Short nonces leave more room for the length. */
+  if (N > iv_len) {
+    N = iv_len;
+    L = 15 - N;
+  }
+
   if (N < 7 || N > 13)
     return 0;
 
-- 
2.43.0


From 418a368f41e1036a2f3aaabbb43f1f058c80d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:41 +0000
Subject: [PATCH 04/18] fix: keep a copied CTR-DRBG independent of the original

The context holds pointers into its own key/counter buffer, so after a
structure copy an update rekeyed from the buffer of the original.
---
 src/drbg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drbg.c b/src/drbg.c
index 2d389cc..bafdc25 100644
--- a/src/drbg.c
+++ b/src/drbg.c
@@ -354,7 +354,7 @@ ctr_drbg_update(ctr_drbg_t *drbg, const unsigned char *seed, size_t seed_len) {
   for (i = 0; i < seed_len; i++)
     drbg->KV[i] ^= seed[i];
 
-  ctr_drbg_rekey(drbg, drbg->K, drbg->V);
+  ctr_drbg_rekey(drbg, drbg->KV, drbg->KV + drbg->key_size);
 }
 
 static void
@@ -497,7 +497,7 @@ ctr_drbg_init(ctr_drbg_t *drbg,
 
   memset(drbg->KV, 0, drbg->ent_size);
 
-  ctr_drbg_rekey(drbg, drbg->K, drbg->V);
+  ctr_drbg_rekey(drbg, drbg->KV, drbg->KV + drbg->key_size);
   ctr_drbg_update(drbg, entropy, drbg->ent_size);
 }
 
-- 
2.43.0


From 12a515b9c0205015789ebee2c8125bc5329da989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:42 +0000
Subject: [PATCH 05/18] fix: bcrypt keys of 255 bytes or more hashed as the
 empty key

With minor version 'a' the key length is the password length plus one,
modulo 256. A length of zero made every long password use the same
(empty) key. Count the whole password and use at least one byte.
---
 src/kdf.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kdf.c b/src/kdf.c
index d9ac09b..79ab079 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -262,13 +262,16 @@ static int
 bcrypt_ascii_key(unsigned char *key, size_t *key_len, const char *pass) {
   size_t len = 0;
 
-  while (*pass != '\0' && len < 255) {
+  while (*pass != '\0') {
     int ch = torsion_ascii(*pass++);
 
     if ((ch < 7 || ch > 13) && (ch < 32 || ch > 126))
       return 0;
 
-    key[len++] = ch;
+    if (len < 255)
+      key[len] = ch;
+
+    len += 1;
   }
 
   *key_len = len;
@@ -380,6 +383,8 @@ bcrypt_derive(unsigned char *out,
   switch (minor) {
     case 'a':
       key_len = (pass_len + 1) & 0xff;
+      if (key_len == 0)
+        key_len = 1;
       break;
     case 'b':
       key_len = pass_len;
-- 
2.43.0


From 01ee6645ee2d2dc48e8baa3183e3d9f3252be946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:42 +0000
Subject: [PATCH 06/18] fix: iterated PGP key derivation looped for ever on
 empty input

With an empty password and an empty salt there is nothing to hash, so
the count was never reached. Refuse it.
---
 src/kdf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kdf.c b/src/kdf.c
index 79ab079..e7dea78 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -899,6 +899,9 @@ pgpdf_derive_iterated(unsigned char *out,
   if (total < salt_len)
     return 0;
 
+  if (total == 0)
+    return 0;
+
   if (count < total)
     count = total;
 
-- 
2.43.0


From 1c2b524791beab4dcbb3250fcfd85405d4f6b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:42 +0000
Subject: [PATCH 07/18] fix: scrypt accepted costs that RFC 7914 forbids

N must be larger than 1 and less than 2^(128 * r / 8).
---
 src/kdf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kdf.c b/src/kdf.c
index e7dea78..b8f020d 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -985,7 +985,10 @@ scrypt_derive(unsigned char *out,
   int ret = 0;
   size_t i;
 
-  if (N == 0 || R == 0 || P == 0)
+  if (N < 2 || R == 0 || P == 0)
+    return 0;
+
+  if (R < 4 && (N >> (16 * R)) != 0)
     return 0;
 
 #if SIZE_MAX > UINT32_MAX
-- 
2.43.0


From 1262ef703250ed2035bf39e7acaf98142e445fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:48 +0000
Subject: [PATCH 08/18] fix: setting or clearing a bit of a negative integer
 gave wrong values

The bit operations treat integers as two's complement, but on negative
numbers the magnitude's bit was changed without carrying into the bits
above it.
---
 src/mpi.c | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 4c1a0d1..930fd1c 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7230,6 +7230,38 @@ mpz_setbit_abs(mpz_ptr z, mp_bits_t pos) {
   zp[s] |= MP_LIMB_C(1) << r;
 }
 
+static void
+mpz_addbit_abs(mpz_ptr z, mp_bits_t pos) {
+  mp_size_t s = pos / MP_LIMB_BITS;
+  mp_bits_t r = pos % MP_LIMB_BITS;
+  mp_size_t zn = MP_ABS(z->size);
+  mp_size_t n = MP_MAX(zn, s + 1);
+  mp_limb_t *zp = mpz_grow(z, n + 1);
+
+  while (zn < n)
+    zp[zn++] = 0;
+
+  zp[n] = mpn_add_1(zp + s, zp + s, n - s, MP_LIMB_C(1) << r);
+
+  zn = n + (zp[n] != 0);
+
+  z->size = z->size < 0 ? -zn : zn;
+}
+
+static void
+mpz_subbit_abs(mpz_ptr z, mp_bits_t pos) {
+  mp_size_t s = pos / MP_LIMB_BITS;
+  mp_bits_t r = pos % MP_LIMB_BITS;
+  mp_size_t zn = MP_ABS(z->size);
+  mp_limb_t *zp = z->limbs;
+
+  mpn_sub_1(zp + s, zp + s, zn - s, MP_LIMB_C(1) << r);
+
+  zn = mpn_strip(zp, zn);
+
+  z->size = z->size < 0 ? -zn : zn;
+}
+
 static void
 mpz_clrbit_abs(mpz_ptr z, mp_bits_t pos) {
   mp_size_t s = pos / MP_LIMB_BITS;
@@ -7248,18 +7280,18 @@ mpz_clrbit_abs(mpz_ptr z, mp_bits_t pos) {
 
 void
 mpz_setbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
-    mpz_clrbit_abs(z, pos);
-  else
+  if (z->size >= 0)
     mpz_setbit_abs(z, pos);
+  else if (!mpz_tstbit(z, pos))
+    mpz_subbit_abs(z, pos);
 }
 
 void
 mpz_clrbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
-    mpz_setbit_abs(z, pos);
-  else
+  if (z->size >= 0)
     mpz_clrbit_abs(z, pos);
+  else if (mpz_tstbit(z, pos))
+    mpz_addbit_abs(z, pos);
 }
 
 void
-- 
2.43.0


From e3de6c43f3fd418d5b8965caf524078cd15de6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:49 +0000
Subject: [PATCH 09/18] fix: gcdext lost the sign of an operand replaced by the
 gcd

With one operand zero the cofactor is the sign of the other operand. It
was read after the gcd had been stored, possibly over that operand.
---
 src/mpi.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 930fd1c..51a4be5 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7516,8 +7516,11 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
    */
   mpz_t u, v, A, B, C, D, up, vp;
   mp_bits_t uz, vz, shift;
+  int sign;
 
   if (x->size == 0) {
+    sign = mpz_sgn(y);
+
     if (g != NULL)
       mpz_abs(g, y);
 
@@ -7525,17 +7528,19 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
       s->size = 0;
 
     if (t != NULL)
-      mpz_set_si(t, mpz_sgn(y));
+      mpz_set_si(t, sign);
 
     return;
   }
 
   if (y->size == 0) {
+    sign = mpz_sgn(x);
+
     if (g != NULL)
       mpz_abs(g, x);
 
     if (s != NULL)
-      mpz_set_si(s, mpz_sgn(x));
+      mpz_set_si(s, sign);
 
     if (t != NULL)
       t->size = 0;
-- 
2.43.0


From b7d186f1cd787840294762301b20e8b5e9906a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:49 +0000
Subject: [PATCH 10/18] fix: fib2_ui and lucnum2_ui gave wrong predecessors at
 index zero

F(-1) is 1 and L(-1) is -1.
---
 src/mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 51a4be5..2974564 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -8431,7 +8431,7 @@ mpz_fib2_ui(mpz_ptr fn, mpz_ptr fn1, mp_limb_t n) {
 
   if (n == 0) {
     if (fn1 != NULL)
-      fn1->size = 0;
+      mpz_set_ui(fn1, 1);
 
     fn->size = 0;
 
@@ -8490,7 +8490,7 @@ mpz_lucnum2_ui(mpz_ptr ln, mpz_ptr ln1, mp_limb_t n) {
 
   if (n == 0) {
     if (ln1 != NULL)
-      ln1->size = 0;
+      mpz_set_si(ln1, -1);
 
     mpz_set_ui(ln, 2);
 
-- 
2.43.0


From 0ae1e035b467a5b14a8c7cb826eb5a537a61293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:49 +0000
Subject: [PATCH 11/18] fix: powm_sec aborted in checked builds when replacing
 its modulus

The range assertion compared the result with the modulus after the result
had been stored over it.
---
 src/mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index 2974564..68fab8c 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -3708,7 +3708,7 @@ mpn_sec_montmul(mp_limb_t *zp, const mp_limb_t *xp,
   mpn_reduce_weak(zp, tp + n, mp, n, c, tp);
 
 #ifdef TORSION_VERIFY
-  ASSERT(mpn_cmp(zp, mp, n) < 0);
+  ASSERT(zp == mp || mpn_cmp(zp, mp, n) < 0);
 #endif
 }
 
-- 
2.43.0


From 7bef42cc3e7786a93f05236940a1a1b8f509d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:53 +0000
Subject: [PATCH 12/18] fix: try the last square root when factoring an RSA
 modulus

Rebuilding a private key from (n, e, d) factors n by taking square roots of
one. The loop stopped one squaring early, so a root whose square first became
one at the last step was never used. Keys with p = q = 3 mod 4 and
e * d - 1 = 2 mod 4 could not be rebuilt at all.
---
 src/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa.c b/src/rsa.c
index 0d1ff8d..4ed1f53 100644
--- a/src/rsa.c
+++ b/src/rsa.c
@@ -865,7 +865,7 @@ rsa_priv_set_ned(rsa_priv_t *out,
     if (mpz_cmp_ui(b, 1) == 0 || mpz_cmp(b, nm1) == 0)
       continue;
 
-    for (j = 1; j < s; j++) {
+    for (j = 1; j <= s; j++) {
       /* c = b^2 mod n */
       mpz_sqr(c, b);
       mpz_mod(c, c, n);
-- 
2.43.0


From a80193fce1b13324ff4cbbd2bda012a654b083db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:32 +0000
Subject: [PATCH 13/18] fix: ed1174 point multiplication ignored the top four
 bits of a scalar

eddsa_pubkey_tweak_mul passes the 32 byte tweak to edwards_mul unreduced,
but edwards_mul only looked at the first 252 bits on ed1174, because it
took the number of windows from the size of the field. Tweaks of 2^252
and above gave a key that did not match eddsa_scalar_tweak_mul.
---
 src/ecc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ecc.c b/src/ecc.c
index 9a869c6..f2a5c7a 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7406,9 +7406,8 @@ edwards_mul(const edwards_t *ec, xge_t *r, const xge_t *p, const sc_t k) {
    * [ECPM] "Windowed method".
    * [GECC] Page 95, Section 3.3.
    */
-  const prime_field_t *fe = &ec->fe;
   const scalar_field_t *sc = &ec->sc;
-  mp_bits_t steps = WND_STEPS(fe->bits);
+  mp_bits_t steps = WND_STEPS((mp_bits_t)sc->size * 8);
   xge_t wnd[WND_SIZE]; /* 4608 bytes */
   mp_bits_t i, j, b;
   xge_t t;
-- 
2.43.0


From 40aed6c80a73a59a88b381b5d6ddf90ddc5ffc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:08 +0000
Subject: [PATCH 14/18] fix: do not abort in ecdh_pubkey_create for keys whose
 product is the neutral element

---
 src/ecc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecc.c b/src/ecc.c
index f2a5c7a..1a44e2e 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -13008,7 +13008,7 @@ ecdh_pubkey_create(const mont_t *ec,
 
   mont_mul_g(ec, &A, a);
 
-  ASSERT(pge_export(ec, pub, &A));
+  pge_export(ec, pub, &A);
 
   sc_cleanse(sc, a);
 
-- 
2.43.0


From 2e3c14b4c166ed6e3e628146ed80f5a0c56b79ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:08 +0000
Subject: [PATCH 15/18] fix: initialise the tweak in ristretto_pubkey_grind

---
 src/ecc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 1a44e2e..8b31f53 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -14618,6 +14618,8 @@ ristretto_pubkey_grind(const edwards_t *ec,
   if (!rge_import(ec, &A, pub))
     return 0;
 
+  sc_zero(sc, t);
+
   do {
     xge_mixed_add(ec, &A, &A, &ec->g);
 
-- 
2.43.0


From 573ce1e5cf4634e5ffe2783761750e21521d7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:08 +0000
Subject: [PATCH 16/18] fix: remove the padding of the ristretto constants of
 ed448

---
 src/ecc.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/ecc.c b/src/ecc.c
index 8b31f53..4ad0c05 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -9626,7 +9626,6 @@ static const ristretto_def_t ristretto_ed25519 = {
 
 static const ristretto_def_t ristretto_ed448 = {
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
@@ -9636,7 +9635,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdd, 0x26, 0x9d, 0x04, 0x14, 0xdb, 0x08, 0x97,
     0xc4, 0x09, 0x72, 0x8d, 0xd0, 0x5d, 0x95, 0x5f,
     0x5e, 0x0e, 0x58, 0x47, 0x5a, 0x47, 0x2a, 0xb4,
@@ -9646,7 +9644,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x69, 0xbd, 0x10, 0xf0, 0xba, 0xa8, 0xd8, 0xc9
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x12, 0xfe, 0xc0, 0xc0, 0xb2, 0x5b, 0x7a, 0x49,
     0x44, 0x3b, 0x87, 0x48, 0x73, 0x4a, 0xdc, 0xac,
     0x46, 0x28, 0xc5, 0xf6, 0x56, 0xa4, 0x9f, 0x7b,
@@ -9656,7 +9653,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x79, 0xd2, 0xe2, 0x18, 0x36, 0x74, 0x9f, 0x46
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdf, 0x64, 0x97, 0xe8, 0x36, 0xd1, 0x56, 0x79,
     0x5a, 0x71, 0x30, 0xf4, 0x3e, 0x77, 0x86, 0x9a,
     0x11, 0x73, 0xae, 0x0c, 0x1e, 0x2c, 0x4c, 0x2b,
@@ -9666,7 +9662,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x5a, 0x06, 0x38, 0xbe, 0xa7, 0x8f, 0x0f, 0xeb
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x18, 0xa4, 0xc3, 0x28, 0x4c, 0xb8, 0xad, 0x25,
     0xad, 0xee, 0xea, 0x76, 0x1f, 0x20, 0xf6, 0x83,
     0xbf, 0x3a, 0x1e, 0x14, 0xa5, 0xcf, 0x79, 0x00,
-- 
2.43.0


From ea62d89ba5171b2376f776259ab577dd11681e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:08 +0000
Subject: [PATCH 17/18] fix: prefer the second root in the ristretto map of
 zero

---
 src/ecc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 4ad0c05..7562ce1 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7967,6 +7967,9 @@ ristretto_elligator(const edwards_t *ec, rge_t *p0, const fe_t r0) {
   /* S = sqrt(NS / D) */
   sqr = fe_rsqrt(fe, s, ns, d);
 
+  /* Prefer the second root when R = 0. */
+  sqr &= fe_is_zero(fe, r) ^ 1;
+
   /* S' = S * R0 */
   fe_mul(fe, sp, s, r0);
 
-- 
2.43.0


From 1ecc0f08e0fc8f73bad04956eba788b4f84b1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:08 +0000
Subject: [PATCH 18/18] fix: do not report zero as a preimage of points it does
 not map to

---
 src/ecc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 7562ce1..f12193e 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -4942,6 +4942,9 @@ wei_sswui(const wei_t *ec, fe_t u, const wge_t *p, unsigned int hint) {
 
   ret &= fe_isqrt(fe, u, n0, d0);
 
+  /* Zero is never a preimage of this kind. */
+  ret &= fe_is_zero(fe, u) ^ 1;
+
   fe_set_odd(fe, u, u, fe_is_odd(fe, p->y));
 
   ret &= p->inf ^ 1;
@@ -5164,6 +5167,9 @@ wei_svdwi(const wei_t *ec, fe_t u, const wge_t *p, unsigned int hint) {
 
   ret &= fe_equal(fe, n0, p->x);
 
+  /* Zero maps to a point with an even y coordinate. */
+  ret &= (fe_is_zero(fe, u) & fe_is_odd(fe, p->y)) ^ 1;
+
   fe_set_odd(fe, u, u, fe_is_odd(fe, p->y));
 
   ret &= p->inf ^ 1;
@@ -7753,6 +7759,9 @@ edwards_invert2(const edwards_t *ec, fe_t u,
 
   ret &= fe_isqrt(fe, u, n, d);
 
+  /* Zero maps to one of (-A, +-y) and (0, 0). */
+  ret &= fe_is_zero(fe, u) ^ 1;
+
   fe_set_odd(fe, u, u, fe_is_odd(fe, y0));
 
   ret &= m.inf ^ 1;
-- 
2.43.0

