import java.util.*;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/** Stream.tla: cores of the stream ciphers (checked against the definitions in StreamTest.tla). */
public class StreamOv {
  static int r(int x, int n) { return Integer.rotateLeft(x, n); }
  static void qc(int[] x, int a, int b, int c, int d) {
    x[a] += x[b]; x[d] = r(x[d] ^ x[a], 16);
    x[c] += x[d]; x[b] = r(x[b] ^ x[c], 12);
    x[a] += x[b]; x[d] = r(x[d] ^ x[a], 8);
    x[c] += x[d]; x[b] = r(x[b] ^ x[c], 7);
  }
  static void qs(int[] x, int a, int b, int c, int d) {
    x[b] ^= r(x[a] + x[d], 7);
    x[c] ^= r(x[b] + x[a], 9);
    x[d] ^= r(x[c] + x[b], 13);
    x[a] ^= r(x[d] + x[c], 18);
  }
  @TLAPlusOperator(identifier = "ChaCha", module = "Stream", warn = false)
  public static Value chacha(Value v) {
    int[] x = VtOv.ints(v).clone();
    for (int i = 0; i < 10; i++) {
      for (int k = 0; k < 4; k++) qc(x, k, 4 + k, 8 + k, 12 + k);
      for (int k = 0; k < 4; k++) qc(x, k, 4 + (k + 1) % 4, 8 + (k + 2) % 4, 12 + (k + 3) % 4);
    }
    return CipherOv.ivs(x);
  }
  @TLAPlusOperator(identifier = "Salsa", module = "Stream", warn = false)
  public static Value salsa(Value v) {
    int[] x = VtOv.ints(v).clone();
    for (int i = 0; i < 10; i++) {
      qs(x, 0, 4, 8, 12); qs(x, 5, 9, 13, 1); qs(x, 10, 14, 2, 6); qs(x, 15, 3, 7, 11);
      qs(x, 0, 1, 2, 3); qs(x, 5, 6, 7, 4); qs(x, 10, 11, 8, 9); qs(x, 15, 12, 13, 14);
    }
    return CipherOv.ivs(x);
  }
  @TLAPlusOperator(identifier = "Arc4Bytes", module = "Stream", warn = false)
  public static Value arc4(Value key, IntValue n) {
    byte[] k = VtOv.bytes(key), o = new byte[n.val];
    int[] s = new int[256];
    for (int i = 0; i < 256; i++) s[i] = i;
    int j = 0;
    for (int i = 0; i < 256; i++) {
      j = (j + s[i] + (k[i % k.length] & 255)) & 255;
      int t = s[i]; s[i] = s[j]; s[j] = t;
    }
    int a = 0, b = 0;
    for (int i = 0; i < o.length; i++) {
      a = (a + 1) & 255; b = (b + s[a]) & 255;
      int t = s[a]; s[a] = s[b]; s[b] = t;
      o[i] = (byte) s[(s[a] + s[b]) & 255];
    }
    return VtOv.tup(o);
  }
}
