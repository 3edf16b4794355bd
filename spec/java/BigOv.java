import java.math.BigInteger;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/** BigInt.tla: integers of any size. */
public class BigOv {
  static BigInteger n(Value v) {
    if (v instanceof BigValue) return ((BigValue) v).n;
    throw new RuntimeException("not a big integer: " + v);
  }
  static Value b(BigInteger x) { return new BigValue(x); }
  static Value bool(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "Z", module = "BigInt", warn = false)
  public static Value z(IntValue a) { return b(BigInteger.valueOf(a.val)); }
  @TLAPlusOperator(identifier = "ZInt", module = "BigInt", warn = false)
  public static Value zint(Value a) { return IntValue.gen(n(a).intValueExact()); }
  @TLAPlusOperator(identifier = "ZHex", module = "BigInt", warn = false)
  public static Value zhex(StringValue s) { String t = VtOv.str(s); return b(new BigInteger(t.isEmpty() ? "0" : t, 16)); }
  @TLAPlusOperator(identifier = "HexZ", module = "BigInt", warn = false)
  public static Value hexz(Value a) { return new StringValue(n(a).toString(16)); }
  @TLAPlusOperator(identifier = "ZBE", module = "BigInt", warn = false)
  public static Value zbe(Value s) { return b(new BigInteger(1, VtOv.bytes(s))); }
  @TLAPlusOperator(identifier = "ZLE", module = "BigInt", warn = false)
  public static Value zle(Value s) { return b(new BigInteger(1, VtOv.bytes(VtOv.rev(s)))); }
  @TLAPlusOperator(identifier = "BEZ", module = "BigInt", warn = false)
  public static Value bez(Value a, IntValue k) {
    BigInteger x = n(a).mod(BigInteger.ONE.shiftLeft(8 * k.val));
    Value[] r = new Value[k.val];
    byte[] y = x.toByteArray();
    for (int i = 0; i < k.val; i++) { int j = y.length - 1 - i; r[k.val - 1 - i] = IntValue.gen(j >= 0 ? y[j] & 0xff : 0); }
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "LEZ", module = "BigInt", warn = false)
  public static Value lez(Value a, IntValue k) { return VtOv.rev(bez(a, k)); }
  @TLAPlusOperator(identifier = "++", module = "BigInt", warn = false)
  public static Value add(Value a, Value c) { return b(n(a).add(n(c))); }
  @TLAPlusOperator(identifier = "--", module = "BigInt", warn = false)
  public static Value sub(Value a, Value c) { return b(n(a).subtract(n(c))); }
  @TLAPlusOperator(identifier = "**", module = "BigInt", warn = false)
  public static Value mul(Value a, Value c) { return b(n(a).multiply(n(c))); }
  @TLAPlusOperator(identifier = "//", module = "BigInt", warn = false)
  public static Value fdiv(Value a, Value c) {
    BigInteger[] qr = n(a).divideAndRemainder(n(c));
    return b(qr[1].signum() != 0 && (qr[1].signum() != n(c).signum()) ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }
  @TLAPlusOperator(identifier = "%%", module = "BigInt", warn = false)
  public static Value mod(Value a, Value c) { return b(n(a).mod(n(c))); }
  @TLAPlusOperator(identifier = "ZQuo", module = "BigInt", warn = false)
  public static Value quo(Value a, Value c) { return b(n(a).divide(n(c))); }
  @TLAPlusOperator(identifier = "ZRem", module = "BigInt", warn = false)
  public static Value rem(Value a, Value c) { return b(n(a).remainder(n(c))); }
  @TLAPlusOperator(identifier = "ZNeg", module = "BigInt", warn = false)
  public static Value neg(Value a) { return b(n(a).negate()); }
  @TLAPlusOperator(identifier = "ZAbs", module = "BigInt", warn = false)
  public static Value abs(Value a) { return b(n(a).abs()); }
  @TLAPlusOperator(identifier = "ZLt", module = "BigInt", warn = false)
  public static Value lt(Value a, Value c) { return bool(n(a).compareTo(n(c)) < 0); }
  @TLAPlusOperator(identifier = "ZLe", module = "BigInt", warn = false)
  public static Value le(Value a, Value c) { return bool(n(a).compareTo(n(c)) <= 0); }
  @TLAPlusOperator(identifier = "ZSgn", module = "BigInt", warn = false)
  public static Value sgn(Value a) { return IntValue.gen(n(a).signum()); }
  @TLAPlusOperator(identifier = "ZPow", module = "BigInt", warn = false)
  public static Value pow(Value a, IntValue k) { return b(n(a).pow(k.val)); }
  @TLAPlusOperator(identifier = "Z2", module = "BigInt", warn = false)
  public static Value z2(IntValue k) { return b(BigInteger.ONE.shiftLeft(k.val)); }
  @TLAPlusOperator(identifier = "ZShr", module = "BigInt", warn = false)
  public static Value zshr(Value a, IntValue k) { return b(n(a).shiftRight(k.val)); }
  @TLAPlusOperator(identifier = "ZShl", module = "BigInt", warn = false)
  public static Value zshl(Value a, IntValue k) { return b(n(a).shiftLeft(k.val)); }
  @TLAPlusOperator(identifier = "ZBitLen", module = "BigInt", warn = false)
  public static Value bl(Value a) { return IntValue.gen(n(a).abs().bitLength()); }
  @TLAPlusOperator(identifier = "ZBit", module = "BigInt", warn = false)
  public static Value bit(Value a, IntValue k) { return IntValue.gen(n(a).testBit(k.val) ? 1 : 0); }
  @TLAPlusOperator(identifier = "ZOdd", module = "BigInt", warn = false)
  public static Value odd(Value a) { return bool(n(a).testBit(0)); }
  @TLAPlusOperator(identifier = "ZAnd", module = "BigInt", warn = false)
  public static Value and(Value a, Value c) { return b(n(a).and(n(c))); }
  @TLAPlusOperator(identifier = "ZOr", module = "BigInt", warn = false)
  public static Value or(Value a, Value c) { return b(n(a).or(n(c))); }
  @TLAPlusOperator(identifier = "ZXor", module = "BigInt", warn = false)
  public static Value xor(Value a, Value c) { return b(n(a).xor(n(c))); }
  @TLAPlusOperator(identifier = "ZGcd", module = "BigInt", warn = false)
  public static Value gcd(Value a, Value c) { return b(n(a).gcd(n(c))); }
  @TLAPlusOperator(identifier = "ZInv", module = "BigInt", warn = false)
  public static Value inv(Value a, Value m) {
    BigInteger x = n(a).mod(n(m));
    if (!x.gcd(n(m)).equals(BigInteger.ONE) || n(m).equals(BigInteger.ONE)) return b(BigInteger.ZERO);
    return b(x.modInverse(n(m)));
  }
  @TLAPlusOperator(identifier = "ZPowMod", module = "BigInt", warn = false)
  public static Value powm(Value a, Value e, Value m) { return b(n(a).modPow(n(e), n(m))); }
  @TLAPlusOperator(identifier = "ZMulMod", module = "BigInt", warn = false)
  public static Value mulm(Value a, Value c, Value m) { return b(n(a).multiply(n(c)).mod(n(m))); }
  @TLAPlusOperator(identifier = "ZAddMod", module = "BigInt", warn = false)
  public static Value addm(Value a, Value c, Value m) { return b(n(a).add(n(c)).mod(n(m))); }
  @TLAPlusOperator(identifier = "ZSubMod", module = "BigInt", warn = false)
  public static Value subm(Value a, Value c, Value m) { return b(n(a).subtract(n(c)).mod(n(m))); }
  @TLAPlusOperator(identifier = "ZSqrt", module = "BigInt", warn = false)
  public static Value sqrt(Value a) { return b(n(a).sqrt()); }
  @TLAPlusOperator(identifier = "ZPrime", module = "BigInt", warn = false)
  public static Value prime(Value a) { return bool(n(a).signum() > 0 && n(a).isProbablePrime(100)); }
  @TLAPlusOperator(identifier = "ZPopCount", module = "BigInt", warn = false)
  public static Value pop(Value a) { return IntValue.gen(n(a).bitCount()); }
  @TLAPlusOperator(identifier = "ZStr", module = "BigInt", warn = false)
  public static Value zstr(Value a, IntValue base) { return new StringValue(n(a).toString(base.val)); }
}
