import java.util.*;
import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/** Cipher.tla: library block ciphers and Blowfish (checked against the definitions in CipherTest.tla). */
public class CipherOv {
  static final ThreadLocal<LinkedHashMap<String, Cipher>> CACHE = ThreadLocal.withInitial(() -> new LinkedHashMap<String, Cipher>() {
    @Override protected boolean removeEldestEntry(Map.Entry<String, Cipher> e) { return size() > 64; }
  });
  static Value run(String alg, Value key, Value b, int mode) throws Exception {
    byte[] k = VtOv.bytes(key);
    String id = alg + mode + VtOv.hex(k);
    LinkedHashMap<String, Cipher> c = CACHE.get();
    Cipher x = c.get(id);
    if (x == null) {
      x = Cipher.getInstance(alg + "/ECB/NoPadding");
      x.init(mode, new SecretKeySpec(k, alg));
      c.put(id, x);
    }
    return VtOv.tup(x.doFinal(VtOv.bytes(b)));
  }
  @TLAPlusOperator(identifier = "JdkEnc", module = "Cipher", warn = false)
  public static Value enc(StringValue alg, Value key, Value b) throws Exception { return run(VtOv.str(alg), key, b, Cipher.ENCRYPT_MODE); }
  @TLAPlusOperator(identifier = "JdkDec", module = "Cipher", warn = false)
  public static Value dec(StringValue alg, Value key, Value b) throws Exception { return run(VtOv.str(alg), key, b, Cipher.DECRYPT_MODE); }

  static int f(int[] s, int x) { return ((s[18 + (x >>> 24)] + s[274 + ((x >>> 16) & 255)]) ^ s[530 + ((x >>> 8) & 255)]) + s[786 + (x & 255)]; }
  static void bf(int[] s, int[] v) {
    int l = v[0], r = v[1];
    for (int i = 0; i < 16; i++) { int a = l ^ s[i]; l = r ^ f(s, a); r = a; }
    v[0] = r ^ s[17]; v[1] = l ^ s[16];
  }
  static int cyc(byte[] s, int i) {
    int w = 0;
    if (s.length > 0) for (int k = 0; k < 4; k++) w = w << 8 | (s[(4 * i + k) % s.length] & 255);
    return w;
  }
  static void expand(int[] s, byte[] salt, byte[] key) {
    for (int i = 0; i < 18; i++) s[i] ^= cyc(key, i);
    int[] v = new int[2];
    for (int k = 0; k < 521; k++) {
      v[0] ^= cyc(salt, 2 * k); v[1] ^= cyc(salt, 2 * k + 1);
      bf(s, v);
      s[2 * k] = v[0]; s[2 * k + 1] = v[1];
    }
  }
  static Value ivs(int[] s) { Value[] o = new Value[s.length]; for (int i = 0; i < o.length; i++) o[i] = VtOv.iv(s[i]); return new TupleValue(o); }
  @TLAPlusOperator(identifier = "BfExpand", module = "Cipher", warn = false)
  public static Value bfexpand(Value st, Value salt, Value key) {
    int[] s = VtOv.ints(st);
    expand(s, VtOv.bytes(salt), VtOv.bytes(key));
    return ivs(s);
  }
  @TLAPlusOperator(identifier = "BfEncW", module = "Cipher", warn = false)
  public static Value bfenc(Value st, IntValue l, IntValue r) {
    int[] s = VtOv.ints(st), v = { l.val, r.val };
    bf(s, v);
    return ivs(v);
  }

  @TLAPlusOperator(identifier = "GfMul", module = "Modes", warn = false)
  public static Value gfmul(Value x, Value y) {
    Value[] xe = VtOv.el(x), ye = VtOv.el(y);
    long x1 = VtOv.l(xe[0]), x2 = VtOv.l(xe[1]), v1 = VtOv.l(ye[0]), v2 = VtOv.l(ye[1]), z1 = 0, z2 = 0;
    for (int i = 0; i < 128; i++) {
      long bit = i < 64 ? x1 >>> (63 - i) : x2 >>> (127 - i);
      if ((bit & 1) != 0) { z1 ^= v1; z2 ^= v2; }
      long lsb = v2 & 1;
      v2 = v2 >>> 1 | v1 << 63;
      v1 >>>= 1;
      if (lsb != 0) v1 ^= 0xe100000000000000L;
    }
    return new TupleValue(VtOv.lv(z1), VtOv.lv(z2));
  }
}
