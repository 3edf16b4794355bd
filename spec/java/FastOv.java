import java.security.MessageDigest;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/** Hash.tla: library digests for the functions the JDK provides (checked against the definitions in HashTest.tla). */
public class FastOv {
  @TLAPlusOperator(identifier = "JdkHash", module = "Hash", warn = false)
  public static Value jdk(StringValue alg, Value m) throws Exception {
    return VtOv.tup(MessageDigest.getInstance(VtOv.str(alg)).digest(VtOv.bytes(m)));
  }

  static final long[] RC = new long[24];
  static final int[] RHO = new int[25];
  static {
    int lfsr = 1;
    for (int r = 0; r < 24; r++)
      for (int j = 0; j < 7; j++) {
        if ((lfsr & 1) != 0) RC[r] |= 1L << ((1 << j) - 1);
        lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x171);
      }
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) {
      RHO[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
      int ny = (2 * x + 3 * y) % 5; x = y; y = ny;
    }
  }
  @TLAPlusOperator(identifier = "KeccakF", module = "Hash", warn = false)
  public static Value keccakf(Value st) {
    Value[] e = VtOv.el(st);
    long[] a = new long[25], b = new long[25], c = new long[5];
    for (int k = 0; k < 25; k++) a[k] = VtOv.l(e[k]);
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
        for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[x + 5 * y] ^ d, RHO[x + 5 * y]);
      }
      for (int y = 0; y < 25; y += 5)
        for (int x = 0; x < 5; x++) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
      a[0] ^= RC[r];
    }
    Value[] o = new Value[25];
    for (int k = 0; k < 25; k++) o[k] = VtOv.lv(a[k]);
    return new TupleValue(o);
  }
}
