import java.math.BigInteger;
import tlc2.overrides.*;
import tlc2.value.impl.*;

/** Curve.tla: roots, multiplications and the ladder, in projective coordinates. */
public class EcOv {
  static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.valueOf(2), THREE = BigInteger.valueOf(3);
  static BigInteger n(Value v) { return BigOv.n(v); }
  static Value b(BigInteger x) { return BigOv.b(x); }
  static Value pt(BigInteger x, BigInteger y) { return new TupleValue(new Value[] {b(x), b(y)}); }
  static BigInteger[] xy(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t.elems.length == 0) return null;
    return new BigInteger[] {n(t.elems[0]), n(t.elems[1])};
  }

  static BigInteger root(BigInteger x, BigInteger p) {
    x = x.mod(p);
    if (x.signum() == 0) return ZERO;
    BigInteger h = p.subtract(ONE).shiftRight(1);
    if (!x.modPow(h, p).equals(ONE)) return ONE.negate();
    if (p.testBit(1)) return x.modPow(p.add(ONE).shiftRight(2), p);
    int s = p.subtract(ONE).getLowestSetBit();
    BigInteger q = p.subtract(ONE).shiftRight(s), z = TWO;
    while (z.modPow(h, p).equals(ONE)) z = z.add(ONE);
    BigInteger c = z.modPow(q, p), t = x.modPow(q, p), r = x.modPow(q.add(ONE).shiftRight(1), p);
    int m = s;
    while (!t.equals(ONE)) {
      int i = 0;
      for (BigInteger u = t; !u.equals(ONE); u = u.multiply(u).mod(p)) i++;
      BigInteger d = c;
      for (int j = 0; j < m - i - 1; j++) d = d.multiply(d).mod(p);
      m = i; c = d.multiply(d).mod(p); t = t.multiply(c).mod(p); r = r.multiply(d).mod(p);
    }
    return r;
  }
  @TLAPlusOperator(identifier = "ZRootMod", module = "Curve", warn = false)
  public static Value rootMod(Value x, Value p) { return b(root(n(x), n(p))); }

  static BigInteger[] jdbl(BigInteger p, BigInteger a, BigInteger[] P) {
    if (P[2].signum() == 0) return P;
    BigInteger yy = P[1].multiply(P[1]).mod(p), zz = P[2].multiply(P[2]).mod(p);
    BigInteger s = P[0].multiply(yy).shiftLeft(2).mod(p);
    BigInteger m = P[0].multiply(P[0]).multiply(THREE).add(a.multiply(zz).mod(p).multiply(zz)).mod(p);
    BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(p);
    BigInteger y = m.multiply(s.subtract(x)).subtract(yy.multiply(yy).shiftLeft(3)).mod(p);
    return new BigInteger[] {x, y, P[1].multiply(P[2]).shiftLeft(1).mod(p)};
  }
  static BigInteger[] jmixed(BigInteger p, BigInteger a, BigInteger[] P, BigInteger[] Q) {
    if (P[2].signum() == 0) return new BigInteger[] {Q[0], Q[1], ONE};
    BigInteger zz = P[2].multiply(P[2]).mod(p);
    BigInteger h = Q[0].multiply(zz).subtract(P[0]).mod(p);
    BigInteger r = Q[1].multiply(zz).mod(p).multiply(P[2]).subtract(P[1]).mod(p);
    if (h.signum() == 0) return r.signum() == 0 ? jdbl(p, a, P) : new BigInteger[] {ONE, ONE, ZERO};
    BigInteger hh = h.multiply(h).mod(p), hhh = hh.multiply(h).mod(p), v = P[0].multiply(hh).mod(p);
    BigInteger x = r.multiply(r).subtract(hhh).subtract(v.shiftLeft(1)).mod(p);
    BigInteger y = r.multiply(v.subtract(x)).subtract(P[1].multiply(hhh)).mod(p);
    return new BigInteger[] {x, y, P[2].multiply(h).mod(p)};
  }
  @TLAPlusOperator(identifier = "EcMulF", module = "Curve", warn = false)
  public static Value ecMul(Value vp, Value va, Value vk, Value vP) {
    BigInteger p = n(vp), a = n(va), k = n(vk);
    BigInteger[] Q = xy(vP), R = {ONE, ONE, ZERO};
    if (Q == null) return vP;
    for (int i = k.bitLength() - 1; i >= 0; i--) {
      R = jdbl(p, a, R);
      if (k.testBit(i)) R = jmixed(p, a, R, Q);
    }
    if (R[2].signum() == 0) return new TupleValue(new Value[0]);
    BigInteger z = R[2].modInverse(p), zz = z.multiply(z).mod(p);
    return pt(R[0].multiply(zz).mod(p), R[1].multiply(zz).multiply(z).mod(p));
  }

  static BigInteger[] teAdd(BigInteger p, BigInteger a, BigInteger d, BigInteger[] P, BigInteger[] Q) {
    BigInteger A = P[2].multiply(Q[2]).mod(p), B = A.multiply(A).mod(p), C = P[0].multiply(Q[0]).mod(p), D = P[1].multiply(Q[1]).mod(p);
    BigInteger E = d.multiply(C).mod(p).multiply(D).mod(p), F = B.subtract(E), G = B.add(E);
    BigInteger X = A.multiply(F).mod(p).multiply(P[0].add(P[1]).multiply(Q[0].add(Q[1])).subtract(C).subtract(D).mod(p)).mod(p);
    BigInteger Y = A.multiply(G).mod(p).multiply(D.subtract(a.multiply(C)).mod(p)).mod(p);
    return new BigInteger[] {X, Y, F.multiply(G).mod(p)};
  }
  @TLAPlusOperator(identifier = "TeMulF", module = "Curve", warn = false)
  public static Value teMul(Value vp, Value va, Value vd, Value vk, Value vP) {
    BigInteger p = n(vp), a = n(va), d = n(vd), k = n(vk);
    BigInteger[] q = xy(vP), Q = {q[0], q[1], ONE}, R = {ZERO, ONE, ONE};
    for (int i = k.bitLength() - 1; i >= 0; i--) {
      R = teAdd(p, a, d, R, R);
      if (k.testBit(i)) R = teAdd(p, a, d, R, Q);
    }
    BigInteger z = R[2].modInverse(p);
    return pt(R[0].multiply(z).mod(p), R[1].multiply(z).mod(p));
  }

  @TLAPlusOperator(identifier = "Ladder", module = "Curve", warn = false)
  public static Value ladder(Value vp, Value vA, IntValue bits, Value vk, Value vu) {
    BigInteger p = n(vp), a24 = n(vA).subtract(TWO).shiftRight(2), k = n(vk), u = n(vu);
    BigInteger x2 = ONE, z2 = ZERO, x3 = u, z3 = ONE;
    for (int i = bits.val - 1; i >= 0; i--) {
      boolean sw = k.testBit(i);
      BigInteger t;
      if (sw) { t = x2; x2 = x3; x3 = t; t = z2; z2 = z3; z3 = t; }
      BigInteger a = x2.add(z2), c = x2.subtract(z2), aa = a.multiply(a).mod(p), bb = c.multiply(c).mod(p), e = aa.subtract(bb);
      BigInteger da = x3.subtract(z3).multiply(a), cb = x3.add(z3).multiply(c), f = da.add(cb).mod(p), g = da.subtract(cb).mod(p);
      x3 = f.multiply(f).mod(p); z3 = u.multiply(g.multiply(g).mod(p)).mod(p);
      x2 = aa.multiply(bb).mod(p); z2 = e.multiply(aa.add(a24.multiply(e))).mod(p);
      if (sw) { t = x2; x2 = x3; x3 = t; t = z2; z2 = z3; z3 = t; }
    }
    if (z2.signum() == 0) return b(ZERO);
    return b(x2.multiply(z2.modInverse(p)).mod(p));
  }
}
