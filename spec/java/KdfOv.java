import tlc2.overrides.*;
import tlc2.value.impl.*;

/** Kdf.tla: the two expensive loops (checked against the definitions in KdfTest.tla). */
public class KdfOv {
  static void salsa8(int[] x) {
    int[] y = x.clone();
    for (int i = 0; i < 4; i++) {
      StreamOv.qs(y, 0, 4, 8, 12); StreamOv.qs(y, 5, 9, 13, 1); StreamOv.qs(y, 10, 14, 2, 6); StreamOv.qs(y, 15, 3, 7, 11);
      StreamOv.qs(y, 0, 1, 2, 3); StreamOv.qs(y, 5, 6, 7, 4); StreamOv.qs(y, 10, 11, 8, 9); StreamOv.qs(y, 15, 12, 13, 14);
    }
    for (int i = 0; i < 16; i++) x[i] += y[i];
  }
  static int[] mix(int[] b) {
    int k = b.length / 16;
    int[] o = new int[b.length], x = new int[16];
    System.arraycopy(b, 16 * (k - 1), x, 0, 16);
    for (int i = 0; i < k; i++) {
      for (int j = 0; j < 16; j++) x[j] ^= b[16 * i + j];
      salsa8(x);
      System.arraycopy(x, 0, o, 16 * (i % 2 == 0 ? i / 2 : k / 2 + i / 2), 16);
    }
    return o;
  }
  @TLAPlusOperator(identifier = "RoMix", module = "Kdf", warn = false)
  public static Value romix(Value b, IntValue n) {
    int[] x = VtOv.ints(b).clone();
    int[][] v = new int[n.val][];
    for (int i = 0; i < v.length; i++) { v[i] = x; x = mix(x); }
    for (int i = 0; i < v.length; i++) {
      int[] w = v[x[x.length - 16] & (v.length - 1)];
      int[] y = new int[x.length];
      for (int j = 0; j < y.length; j++) y[j] = x[j] ^ w[j];
      x = mix(y);
    }
    return CipherOv.ivs(x);
  }
  @TLAPlusOperator(identifier = "BfLoop", module = "Kdf", warn = false)
  public static Value bfloop(Value st, Value a, Value b, IntValue n) {
    int[] s = VtOv.ints(st).clone();
    byte[] ka = VtOv.bytes(a), kb = VtOv.bytes(b), none = new byte[0];
    for (int i = 0; i < n.val; i++) { CipherOv.expand(s, none, ka); CipherOv.expand(s, none, kb); }
    return CipherOv.ivs(s);
  }
}
