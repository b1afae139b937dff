import java.math.BigInteger;
import java.math.BigDecimal;

/** Exact extended number: num * 2^e / den (den odd, positive), or nan, +inf, -inf. Immutable. */
final class Rat implements Comparable<Rat> {
  static final int FIN = 0, NAN = 1, PINF = 2, NINF = 3;
  final int kind; final BigInteger n; final int e; final BigInteger d;
  static final BigInteger ONE = BigInteger.ONE, BZ = BigInteger.ZERO;
  static final Rat NaN = new Rat(NAN), PosInf = new Rat(PINF), NegInf = new Rat(NINF);
  static final Rat Zero = new Rat(BZ, 0, ONE), One = new Rat(ONE, 0, ONE);
  private Rat(int k) { kind = k; n = BZ; e = 0; d = ONE; }
  private Rat(BigInteger n, int e, BigInteger d) { kind = FIN; this.n = n; this.e = e; this.d = d; }
  /** n*2^e/d with arbitrary nonzero d. */
  static Rat make(BigInteger n, int e, BigInteger d) {
    if (n.signum() == 0) return Zero;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    int t = n.getLowestSetBit(); if (t > 0) { n = n.shiftRight(t); e += t; }
    if (!d.equals(ONE)) {
      t = d.getLowestSetBit(); if (t > 0) { d = d.shiftRight(t); e -= t; }
      if (!d.equals(ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
      }
    }
    return new Rat(n, e, d);
  }
  static Rat of(long v) { return make(BigInteger.valueOf(v), 0, ONE); }
  static Rat of(double x) {
    if (Double.isNaN(x)) return NaN;
    if (Double.isInfinite(x)) return x > 0 ? PosInf : NegInf;
    if (x == 0) return Zero;
    long bits = Double.doubleToLongBits(x);
    int ex = (int) ((bits >> 52) & 0x7ff); long m = bits & 0xfffffffffffffL;
    if (ex == 0) ex = 1; else m |= 1L << 52;
    return make(BigInteger.valueOf(bits < 0 ? -m : m), ex - 1075, ONE);
  }
  static Rat parse(String s0) {
    String s = s0.trim();
    if (s.equals("nan") || s.equals("-nan")) return NaN;
    if (s.equals("inf")) return PosInf;
    if (s.equals("-inf")) return NegInf;
    if (s.indexOf('x') >= 0 || s.indexOf('X') >= 0) {
      boolean neg = s.startsWith("-"); if (neg || s.startsWith("+")) s = s.substring(1);
      s = s.substring(2); int p = Math.max(s.indexOf('p'), s.indexOf('P'));
      int ex = p >= 0 ? Integer.parseInt(s.substring(p + 1).replace("+", "")) : 0;
      String mant = p >= 0 ? s.substring(0, p) : s; int dot = mant.indexOf('.');
      if (dot >= 0) { ex -= 4 * (mant.length() - dot - 1); mant = mant.substring(0, dot) + mant.substring(dot + 1); }
      BigInteger v = new BigInteger(mant, 16);
      return make(neg ? v.negate() : v, ex, ONE);
    }
    int slash = s.indexOf('/');
    if (slash >= 0) return make(new BigInteger(s.substring(0, slash)), 0, new BigInteger(s.substring(slash + 1)));
    BigDecimal bd = new BigDecimal(s);
    if (bd.scale() > 0) return make(bd.unscaledValue(), 0, BigInteger.TEN.pow(bd.scale()));
    return make(bd.toBigIntegerExact(), 0, ONE);
  }
  boolean fin() { return kind == FIN; }
  int sgn() { return kind == PINF ? 1 : kind == NINF ? -1 : n.signum(); }
  Rat neg() { switch (kind) { case NAN: return this; case PINF: return NegInf; case NINF: return PosInf; default: return n.signum() == 0 ? this : new Rat(n.negate(), e, d); } }
  Rat abs() { return sgn() < 0 ? neg() : this; }
  private static BigInteger sh(BigInteger a, int k) { return k == 0 ? a : a.shiftLeft(k); }
  Rat add(Rat o) {
    if (kind != FIN || o.kind != FIN) {
      if (kind == NAN || o.kind == NAN) return NaN;
      if (kind != FIN && o.kind != FIN) return kind == o.kind ? this : NaN;
      return kind != FIN ? this : o;
    }
    if (n.signum() == 0) return o; if (o.n.signum() == 0) return this;
    int m = Math.min(e, o.e);
    BigInteger a = sh(n, e - m), b = sh(o.n, o.e - m);
    if (d.equals(o.d)) return make(a.add(b), m, d);
    return make(a.multiply(o.d).add(b.multiply(d)), m, d.multiply(o.d));
  }
  Rat sub(Rat o) { return add(o.neg()); }
  Rat mul(Rat o) {
    if (kind != FIN || o.kind != FIN) {
      if (kind == NAN || o.kind == NAN) return NaN;
      int s = sgn() * o.sgn(); return s == 0 ? NaN : s > 0 ? PosInf : NegInf;
    }
    if (n.signum() == 0 || o.n.signum() == 0) return Zero;
    if (d.equals(ONE) && o.d.equals(ONE)) return new Rat(n.multiply(o.n), e + o.e, ONE);
    return make(n.multiply(o.n), e + o.e, d.multiply(o.d));
  }
  Rat div(Rat o) {
    if (kind == NAN || o.kind == NAN) return NaN;
    if (o.kind != FIN) return kind != FIN ? NaN : Zero;
    if (kind != FIN) return (o.n.signum() < 0) ? neg() : this;
    if (o.n.signum() == 0) return n.signum() == 0 ? NaN : n.signum() > 0 ? PosInf : NegInf;
    return make(n.multiply(o.d), e - o.e, d.multiply(o.n));
  }
  /** Total comparison of non-NaN values. */
  @Override public int compareTo(Rat o) {
    if (kind != FIN || o.kind != FIN) {
      int a = kind == PINF ? 2 : kind == NINF ? -2 : 0, b = o.kind == PINF ? 2 : o.kind == NINF ? -2 : 0;
      return Integer.compare(a, b);
    }
    int s = n.signum(), t = o.n.signum();
    if (s != t) return Integer.compare(s, t);
    if (s == 0) return 0;
    int m = Math.min(e, o.e);
    BigInteger a = sh(n, e - m), b = sh(o.n, o.e - m);
    if (d.equals(o.d)) return a.compareTo(b);
    return a.multiply(o.d).compareTo(b.multiply(d));
  }
  boolean le(Rat o) { return kind != NAN && o.kind != NAN && compareTo(o) <= 0; }
  boolean lt(Rat o) { return kind != NAN && o.kind != NAN && compareTo(o) < 0; }
  boolean eq(Rat o) { return kind != NAN && o.kind != NAN && compareTo(o) == 0; }
  Rat max(Rat o) { return kind == NAN || o.kind == NAN ? NaN : compareTo(o) >= 0 ? this : o; }
  Rat min(Rat o) { return kind == NAN || o.kind == NAN ? NaN : compareTo(o) <= 0 ? this : o; }
  /** Square root to about 130 bits. */
  Rat sqrt() {
    if (kind == NAN || sgn() < 0) return NaN;
    if (kind == PINF) return this;
    if (n.signum() == 0) return Zero;
    // value = n 2^e / d ; scale so that integer has >= 260 bits with even exponent
    int want = 280 - (n.bitLength() - d.bitLength());
    int k = Math.max(want, 0);
    if (((e - k) & 1) != 0) k++;
    BigInteger q = n.shiftLeft(k).divide(d);
    return make(q.sqrt(), (e - k) / 2, ONE);
  }
  /** Nearest double (ties to even, via BigDecimal-free integer rounding). */
  double toDouble() {
    switch (kind) { case NAN: return Double.NaN; case PINF: return Double.POSITIVE_INFINITY; case NINF: return Double.NEGATIVE_INFINITY; default: }
    if (n.signum() == 0) return 0;
    BigInteger a = n.abs(); int bl = a.bitLength() - d.bitLength() + e; // value ~ 2^bl (within factor 2)
    int lsb = Math.max(bl - 54, -1074); // exponent of the unit in the last place candidate
    for (;;) {
      // q = a*2^e/d / 2^lsb
      int s = e - lsb; BigInteger num = s >= 0 ? a.shiftLeft(s) : a; BigInteger den = s >= 0 ? d : d.shiftLeft(-s);
      BigInteger[] qr = num.divideAndRemainder(den);
      if (qr[0].bitLength() > 53) { lsb++; continue; }
      BigInteger two = qr[1].shiftLeft(1); int c = two.compareTo(den);
      BigInteger q = qr[0]; if (c > 0 || (c == 0 && q.testBit(0))) q = q.add(ONE);
      double r = Math.scalb((double) q.longValueExact(), lsb);
      return n.signum() < 0 ? -r : r;
    }
  }
  @Override public String toString() {
    switch (kind) { case NAN: return "nan"; case PINF: return "inf"; case NINF: return "-inf"; default: }
    BigInteger a = n, b = d;
    if (e >= 0) a = a.shiftLeft(e); else b = b.shiftLeft(-e);
    return b.equals(ONE) ? a.toString() : a + "/" + b;
  }
  @Override public boolean equals(Object o) { return o instanceof Rat && ((Rat) o).kind == kind && (kind != FIN || (n.equals(((Rat) o).n) && e == ((Rat) o).e && d.equals(((Rat) o).d))); }
  @Override public int hashCode() { return n.hashCode() * 31 + e * 7 + d.hashCode() + kind; }
}
