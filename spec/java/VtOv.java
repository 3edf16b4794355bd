import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.*;
import tlc2.overrides.*;
import tlc2.tool.EvalControl;
import tlc2.value.IValue;
import tlc2.value.impl.*;

/** Evaluation of the operators of Words.tla and BigInt.tla at machine speed. */
public class VtOv implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] { VtOv.class, BigOv.class, FastOv.class, CipherOv.class, StreamOv.class, KdfOv.class, EcOv.class }; }

  static int i(Value v) { return ((IntValue) v).val; }
  static IntValue iv(int x) { return IntValue.gen(x); }
  static Value[] el(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static long l(Value v) {
    Value[] e = el(v);
    return ((long) i(e[0]) << 32) | (i(e[1]) & 0xffffffffL);
  }
  static Value lv(long x) { return new TupleValue(iv((int) (x >>> 32)), iv((int) x)); }
  static byte[] bytes(Value v) {
    Value[] e = el(v);
    byte[] b = new byte[e.length];
    for (int k = 0; k < b.length; k++) b[k] = (byte) i(e[k]);
    return b;
  }
  static Value tup(byte[] b) { return tup(b, 0, b.length); }
  static Value tup(byte[] b, int off, int n) {
    Value[] e = new Value[n];
    for (int k = 0; k < n; k++) e[k] = iv(b[off + k] & 0xff);
    return new TupleValue(e);
  }
  static String str(Value v) { return ((StringValue) v).val.toString(); }

  @TLAPlusOperator(identifier = "WXor", module = "Words", warn = false)
  public static Value wxor(IntValue a, IntValue b) { return iv(a.val ^ b.val); }
  @TLAPlusOperator(identifier = "BXor1", module = "Words", warn = false)
  public static Value bxor1(IntValue a, IntValue b) { return iv(a.val ^ b.val); }
  @TLAPlusOperator(identifier = "WXor3", module = "Words", warn = false)
  public static Value wxor3(IntValue a, IntValue b, IntValue c) { return iv(a.val ^ b.val ^ c.val); }
  @TLAPlusOperator(identifier = "WAnd", module = "Words", warn = false)
  public static Value wand(IntValue a, IntValue b) { return iv(a.val & b.val); }
  @TLAPlusOperator(identifier = "WOr", module = "Words", warn = false)
  public static Value wor(IntValue a, IntValue b) { return iv(a.val | b.val); }
  @TLAPlusOperator(identifier = "WNot", module = "Words", warn = false)
  public static Value wnot(IntValue a) { return iv(~a.val); }
  @TLAPlusOperator(identifier = "WShl", module = "Words", warn = false)
  public static Value wshl(IntValue a, IntValue n) { return iv(n.val > 31 ? 0 : a.val << n.val); }
  @TLAPlusOperator(identifier = "WShr", module = "Words", warn = false)
  public static Value wshr(IntValue a, IntValue n) { return iv(n.val > 31 ? 0 : a.val >>> n.val); }
  @TLAPlusOperator(identifier = "WRotl", module = "Words", warn = false)
  public static Value wrotl(IntValue a, IntValue n) { return iv(Integer.rotateLeft(a.val, n.val)); }
  @TLAPlusOperator(identifier = "WRotr", module = "Words", warn = false)
  public static Value wrotr(IntValue a, IntValue n) { return iv(Integer.rotateRight(a.val, n.val)); }
  @TLAPlusOperator(identifier = "WAdd", module = "Words", warn = false)
  public static Value wadd(IntValue a, IntValue b) { return iv(a.val + b.val); }
  @TLAPlusOperator(identifier = "WAdd3", module = "Words", warn = false)
  public static Value wadd3(IntValue a, IntValue b, IntValue c) { return iv(a.val + b.val + c.val); }
  @TLAPlusOperator(identifier = "WAdd4", module = "Words", warn = false)
  public static Value wadd4(IntValue a, IntValue b, IntValue c, IntValue d) { return iv(a.val + b.val + c.val + d.val); }
  @TLAPlusOperator(identifier = "WAdd5", module = "Words", warn = false)
  public static Value wadd5(IntValue a, IntValue b, IntValue c, IntValue d, IntValue e) {
    return iv(a.val + b.val + c.val + d.val + e.val);
  }
  @TLAPlusOperator(identifier = "WSub", module = "Words", warn = false)
  public static Value wsub(IntValue a, IntValue b) { return iv(a.val - b.val); }
  @TLAPlusOperator(identifier = "WMul", module = "Words", warn = false)
  public static Value wmul(IntValue a, IntValue b) { return iv(a.val * b.val); }
  @TLAPlusOperator(identifier = "WByte", module = "Words", warn = false)
  public static Value wbyte(IntValue a, IntValue k) { return iv((a.val >>> (8 * k.val)) & 255); }

  @TLAPlusOperator(identifier = "LXor", module = "Words", warn = false)
  public static Value lxor(Value a, Value b) { return lv(l(a) ^ l(b)); }
  @TLAPlusOperator(identifier = "LXor3", module = "Words", warn = false)
  public static Value lxor3(Value a, Value b, Value c) { return lv(l(a) ^ l(b) ^ l(c)); }
  @TLAPlusOperator(identifier = "LAnd", module = "Words", warn = false)
  public static Value land(Value a, Value b) { return lv(l(a) & l(b)); }
  @TLAPlusOperator(identifier = "LAndNot", module = "Words", warn = false)
  public static Value landn(Value a, Value b) { return lv(~l(a) & l(b)); }
  @TLAPlusOperator(identifier = "LOr", module = "Words", warn = false)
  public static Value lor(Value a, Value b) { return lv(l(a) | l(b)); }
  @TLAPlusOperator(identifier = "LNot", module = "Words", warn = false)
  public static Value lnot(Value a) { return lv(~l(a)); }
  @TLAPlusOperator(identifier = "LShl", module = "Words", warn = false)
  public static Value lshl(Value a, IntValue n) { return lv(n.val > 63 ? 0 : l(a) << n.val); }
  @TLAPlusOperator(identifier = "LShr", module = "Words", warn = false)
  public static Value lshr(Value a, IntValue n) { return lv(n.val > 63 ? 0 : l(a) >>> n.val); }
  @TLAPlusOperator(identifier = "LRotl", module = "Words", warn = false)
  public static Value lrotl(Value a, IntValue n) { return lv(Long.rotateLeft(l(a), n.val)); }
  @TLAPlusOperator(identifier = "LRotr", module = "Words", warn = false)
  public static Value lrotr(Value a, IntValue n) { return lv(Long.rotateRight(l(a), n.val)); }
  @TLAPlusOperator(identifier = "LAdd", module = "Words", warn = false)
  public static Value ladd(Value a, Value b) { return lv(l(a) + l(b)); }
  @TLAPlusOperator(identifier = "LAdd3", module = "Words", warn = false)
  public static Value ladd3(Value a, Value b, Value c) { return lv(l(a) + l(b) + l(c)); }
  @TLAPlusOperator(identifier = "LAdd4", module = "Words", warn = false)
  public static Value ladd4(Value a, Value b, Value c, Value d) { return lv(l(a) + l(b) + l(c) + l(d)); }
  @TLAPlusOperator(identifier = "LAdd5", module = "Words", warn = false)
  public static Value ladd5(Value a, Value b, Value c, Value d, Value e) { return lv(l(a) + l(b) + l(c) + l(d) + l(e)); }
  @TLAPlusOperator(identifier = "LMul", module = "Words", warn = false)
  public static Value lmul(Value a, Value b) { return lv(l(a) * l(b)); }
  @TLAPlusOperator(identifier = "LByte", module = "Words", warn = false)
  public static Value lbyte(Value a, IntValue k) { return iv((int) (l(a) >>> (8 * k.val)) & 255); }

  @TLAPlusOperator(identifier = "W32BE", module = "Words", warn = false)
  public static Value w32be(Value s, IntValue o) {
    Value[] e = el(s); int p = o.val;
    return iv(i(e[p]) << 24 | i(e[p + 1]) << 16 | i(e[p + 2]) << 8 | i(e[p + 3]));
  }
  @TLAPlusOperator(identifier = "W32LE", module = "Words", warn = false)
  public static Value w32le(Value s, IntValue o) {
    Value[] e = el(s); int p = o.val;
    return iv(i(e[p + 3]) << 24 | i(e[p + 2]) << 16 | i(e[p + 1]) << 8 | i(e[p]));
  }
  static int[] ints(Value v) { Value[] e = el(v); int[] r = new int[e.length]; for (int k = 0; k < r.length; k++) r[k] = i(e[k]); return r; }
  @TLAPlusOperator(identifier = "Cat32BE", module = "Words", warn = false)
  public static Value cat32be(Value ws) {
    int[] w = ints(ws); Value[] r = new Value[w.length * 4];
    for (int k = 0; k < r.length; k++) r[k] = iv((w[k / 4] >>> (24 - 8 * (k % 4))) & 255);
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Cat32LE", module = "Words", warn = false)
  public static Value cat32le(Value ws) {
    int[] w = ints(ws); Value[] r = new Value[w.length * 4];
    for (int k = 0; k < r.length; k++) r[k] = iv((w[k / 4] >>> (8 * (k % 4))) & 255);
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Cat64BE", module = "Words", warn = false)
  public static Value cat64be(Value ws) {
    Value[] w = el(ws); Value[] r = new Value[w.length * 8];
    for (int j = 0; j < w.length; j++) { long x = l(w[j]); for (int k = 0; k < 8; k++) r[j * 8 + k] = iv((int) (x >>> (56 - 8 * k)) & 255); }
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Cat64LE", module = "Words", warn = false)
  public static Value cat64le(Value ws) {
    Value[] w = el(ws); Value[] r = new Value[w.length * 8];
    for (int j = 0; j < w.length; j++) { long x = l(w[j]); for (int k = 0; k < 8; k++) r[j * 8 + k] = iv((int) (x >>> (8 * k)) & 255); }
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Words32BE", module = "Words", warn = false)
  public static Value words32be(Value s) {
    Value[] r = new Value[el(s).length / 4];
    for (int k = 0; k < r.length; k++) r[k] = w32be(s, iv(4 * k));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Words32LE", module = "Words", warn = false)
  public static Value words32le(Value s) {
    Value[] r = new Value[el(s).length / 4];
    for (int k = 0; k < r.length; k++) r[k] = w32le(s, iv(4 * k));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Words64BE", module = "Words", warn = false)
  public static Value words64be(Value s) {
    Value[] r = new Value[el(s).length / 8];
    for (int k = 0; k < r.length; k++) r[k] = new TupleValue(w32be(s, iv(8 * k)), w32be(s, iv(8 * k + 4)));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Words64LE", module = "Words", warn = false)
  public static Value words64le(Value s) {
    Value[] r = new Value[el(s).length / 8];
    for (int k = 0; k < r.length; k++) r[k] = new TupleValue(w32le(s, iv(8 * k + 4)), w32le(s, iv(8 * k)));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "BXor", module = "Words", warn = false)
  public static Value bxor(Value a, Value b) {
    Value[] x = el(a), y = el(b), r = new Value[x.length];
    for (int k = 0; k < r.length; k++) r[k] = iv(i(x[k]) ^ i(y[k]));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Tup", module = "Words", warn = false)
  public static Value tupv(Value f) { Value t = f.toTuple(); if (t == null) throw new RuntimeException("not a sequence: " + f); t.deepNormalize(); return t; }
  @TLAPlusOperator(identifier = "Zeros", module = "Words", warn = false)
  public static Value zeros(IntValue n) { return rep(iv(0), n); }
  @TLAPlusOperator(identifier = "Rep", module = "Words", warn = false)
  public static Value rep(Value b, IntValue n) { Value[] r = new Value[n.val]; Arrays.fill(r, b); return new TupleValue(r); }
  @TLAPlusOperator(identifier = "Rev", module = "Words", warn = false)
  public static Value rev(Value s) {
    Value[] x = el(s), r = new Value[x.length];
    for (int k = 0; k < r.length; k++) r[k] = x[r.length - 1 - k];
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Take", module = "Words", warn = false)
  public static Value take(Value s, IntValue n) { return new TupleValue(Arrays.copyOfRange(el(s), 0, n.val)); }
  @TLAPlusOperator(identifier = "Drop", module = "Words", warn = false)
  public static Value drop(Value s, IntValue n) { Value[] x = el(s); return n.val >= x.length ? TupleValue.EmptyTuple : new TupleValue(Arrays.copyOfRange(x, n.val, x.length)); }
  @TLAPlusOperator(identifier = "Blocks", module = "Words", warn = false)
  public static Value blocks(Value s, IntValue n) {
    Value[] x = el(s), r = new Value[x.length / n.val];
    for (int k = 0; k < r.length; k++) r[k] = new TupleValue(Arrays.copyOfRange(x, k * n.val, (k + 1) * n.val));
    return new TupleValue(r);
  }
  static byte[] unhex(String s) {
    byte[] b = new byte[s.length() / 2];
    for (int k = 0; k < b.length; k++) b[k] = (byte) (Character.digit(s.charAt(2 * k), 16) << 4 | Character.digit(s.charAt(2 * k + 1), 16));
    return b;
  }
  static String hex(byte[] b) {
    StringBuilder sb = new StringBuilder();
    for (byte x : b) { sb.append(Character.forDigit((x >> 4) & 15, 16)); sb.append(Character.forDigit(x & 15, 16)); }
    return sb.toString();
  }
  @TLAPlusOperator(identifier = "Hex", module = "Words", warn = false)
  public static Value hexv(StringValue s) { return tup(unhex(str(s))); }
  @TLAPlusOperator(identifier = "SInt", module = "Words", warn = false)
  public static Value sint(StringValue s) { return iv(Integer.parseInt(s.val.toString())); }
  @TLAPlusOperator(identifier = "ToHex", module = "Words", warn = false)
  public static Value tohex(Value b) { return new StringValue(hex(bytes(b))); }
  @TLAPlusOperator(identifier = "Ascii", module = "Words", warn = false)
  public static Value ascii(StringValue s) {
    String t = str(s); byte[] b = new byte[t.length()];
    for (int k = 0; k < b.length; k++) b[k] = (byte) t.charAt(k);
    return tup(b);
  }
  @TLAPlusOperator(identifier = "Fold", module = "Words", warn = false)
  public static Value fold(OpValue op, Value base, Value s) {
    Value[] x = el(s), a = new Value[2];
    Value acc = base;
    for (Value v : x) { a[0] = acc; a[1] = v; acc = op.eval(a, EvalControl.Clear); a = new Value[2]; }
    return acc;
  }
  @TLAPlusOperator(identifier = "Iter", module = "Words", warn = false)
  public static Value iter(OpValue op, Value base, IntValue n) {
    Value acc = base;
    for (int k = 0; k < n.val; k++) acc = op.eval(new Value[] { acc, iv(k) }, EvalControl.Clear);
    return acc;
  }
}
