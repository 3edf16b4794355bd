import java.math.BigInteger;
import tlc2.value.*;
import tlc2.value.impl.*;
import util.Assert;

/** An integer of any size as a TLC value (TLC's own integers are 32-bit). */
public final class BigValue extends Value {
  public final BigInteger n;
  public BigValue(BigInteger n) { this.n = n; }

  @Override public byte getKind() { return DUMMYVALUE; }
  @Override public int compareTo(Object o) {
    if (o instanceof BigValue) return n.compareTo(((BigValue) o).n);
    Assert.fail("compared big integer " + n + " with " + o);
    return 0;
  }
  @Override public boolean equals(Object o) {
    if (o instanceof BigValue) return n.equals(((BigValue) o).n);
    if (o instanceof ModelValue || o instanceof StringValue) return false;
    Assert.fail("compared big integer " + n + " with " + o);
    return false;
  }
  @Override public boolean member(Value v) { Assert.fail("not a set"); return false; }
  @Override public boolean isFinite() { Assert.fail("not a set"); return false; }
  @Override public Value takeExcept(ValueExcept ex) { return ex.idx < ex.path.length ? null : ex.value; }
  @Override public Value takeExcept(ValueExcept[] exs) { Assert.fail("not a function"); return null; }
  @Override public int size() { Assert.fail("not a set"); return 0; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public boolean mutates() { return false; }
  @Override public long fingerPrint(long fp) {
    byte[] b = n.toByteArray();
    fp = tlc2.util.FP64.Extend(fp, (byte) 113);
    for (byte x : b) fp = tlc2.util.FP64.Extend(fp, x);
    return fp;
  }
  @Override public IValue permute(IMVPerm perm) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append(n.toString(16)).append("h");
  }
}
