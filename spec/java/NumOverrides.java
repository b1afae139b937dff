import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java implementations of the operators of Num.tla. */
public final class NumOverrides implements ITLCOverrides {
  @Override public Class<?>[] get() { return new Class<?>[] { NumOverrides.class }; }

  private static final ConcurrentHashMap<Integer, Rat> CACHE = new ConcurrentHashMap<>();
  static Rat rat(Value v) {
    if (v instanceof RatValue) return ((RatValue) v).r;
    if (v instanceof IntValue) return Rat.of(((IntValue) v).val);
    if (v instanceof StringValue) {
      UniqueString u = ((StringValue) v).val;
      Integer t = u.getTok();
      Rat r = CACHE.get(t);
      if (r == null) { r = Rat.parse(u.toString()); CACHE.put(t, r); }
      return r;
    }
    throw new RuntimeException("not a number: " + v);
  }
  static Value val(Rat r) { return new RatValue(r); }
  private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static Rat[] vec(Value v) { Value[] e = seq(v); Rat[] r = new Rat[e.length]; for (int i = 0; i < e.length; i++) r[i] = rat(e[i]); return r; }
  static Rat[][] mat(Value v) { Value[] e = seq(v); Rat[][] r = new Rat[e.length][]; for (int i = 0; i < e.length; i++) r[i] = vec(e[i]); return r; }
  static Value vecVal(Rat[] r) { Value[] e = new Value[r.length]; for (int i = 0; i < r.length; i++) e[i] = val(r[i]); return new TupleValue(e); }
  static Value matVal(Rat[][] r) { Value[] e = new Value[r.length]; for (int i = 0; i < r.length; i++) e[i] = vecVal(r[i]); return new TupleValue(e); }
  private static void same(int a, int b, String op) { if (a != b) throw new RuntimeException(op + ": lengths differ " + a + " " + b); }

  @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false) public static Value NAdd(Value a, Value b) { return val(rat(a).add(rat(b))); }
  @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false) public static Value NSub(Value a, Value b) { return val(rat(a).sub(rat(b))); }
  @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false) public static Value NMul(Value a, Value b) { return val(rat(a).mul(rat(b))); }
  @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false) public static Value NDiv(Value a, Value b) { return val(rat(a).div(rat(b))); }
  @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false) public static Value NNeg(Value a) { return val(rat(a).neg()); }
  @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false) public static Value NAbs(Value a) { return val(rat(a).abs()); }
  @TLAPlusOperator(identifier = "NMax", module = "Num", warn = false) public static Value NMax(Value a, Value b) { return val(rat(a).max(rat(b))); }
  @TLAPlusOperator(identifier = "NMin", module = "Num", warn = false) public static Value NMin(Value a, Value b) { return val(rat(a).min(rat(b))); }
  @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false) public static Value NSqrt(Value a) { return val(rat(a).sqrt()); }
  @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false) public static Value NLe(Value a, Value b) { return bool(rat(a).le(rat(b))); }
  @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false) public static Value NLt(Value a, Value b) { return bool(rat(a).lt(rat(b))); }
  @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false) public static Value NEq(Value a, Value b) { return bool(rat(a).eq(rat(b))); }
  @TLAPlusOperator(identifier = "NIsFin", module = "Num", warn = false) public static Value NIsFin(Value a) { return bool(rat(a).fin()); }
  @TLAPlusOperator(identifier = "NIsNaN", module = "Num", warn = false) public static Value NIsNaN(Value a) { return bool(rat(a).kind == Rat.NAN); }
  @TLAPlusOperator(identifier = "NF64", module = "Num", warn = false) public static Value NF64(Value a) { return val(Rat.of(rat(a).toDouble())); }
  @TLAPlusOperator(identifier = "NStr", module = "Num", warn = false) public static Value NStr(Value a) { return new StringValue(rat(a).toString()); }
  @TLAPlusOperator(identifier = "NShow", module = "Num", warn = false) public static Value NShow(Value a) { return new StringValue(Double.toString(rat(a).toDouble())); }

  @TLAPlusOperator(identifier = "VAdd", module = "Num", warn = false) public static Value VAdd(Value a, Value b) { Rat[] x = vec(a), y = vec(b); same(x.length, y.length, "VAdd"); for (int i = 0; i < x.length; i++) x[i] = x[i].add(y[i]); return vecVal(x); }
  @TLAPlusOperator(identifier = "VSub", module = "Num", warn = false) public static Value VSub(Value a, Value b) { Rat[] x = vec(a), y = vec(b); same(x.length, y.length, "VSub"); for (int i = 0; i < x.length; i++) x[i] = x[i].sub(y[i]); return vecVal(x); }
  @TLAPlusOperator(identifier = "VHad", module = "Num", warn = false) public static Value VHad(Value a, Value b) { Rat[] x = vec(a), y = vec(b); same(x.length, y.length, "VHad"); for (int i = 0; i < x.length; i++) x[i] = x[i].mul(y[i]); return vecVal(x); }
  @TLAPlusOperator(identifier = "VScale", module = "Num", warn = false) public static Value VScale(Value k, Value a) { Rat q = rat(k); Rat[] x = vec(a); for (int i = 0; i < x.length; i++) x[i] = q.mul(x[i]); return vecVal(x); }
  @TLAPlusOperator(identifier = "VAbs", module = "Num", warn = false) public static Value VAbs(Value a) { Rat[] x = vec(a); for (int i = 0; i < x.length; i++) x[i] = x[i].abs(); return vecVal(x); }
  @TLAPlusOperator(identifier = "VStr", module = "Num", warn = false) public static Value VStr(Value a) { Rat[] x = vec(a); Value[] e = new Value[x.length]; for (int i = 0; i < x.length; i++) e[i] = new StringValue(x[i].toString()); return new TupleValue(e); }
  @TLAPlusOperator(identifier = "Vec", module = "Num", warn = false) public static Value Vec(Value a) { return vecVal(vec(a)); }
  @TLAPlusOperator(identifier = "Mat", module = "Num", warn = false) public static Value Mat(Value a) { return matVal(mat(a)); }
  private static Rat dot(Rat[] x, Rat[] y) { same(x.length, y.length, "VDot"); Rat s = Rat.Zero; for (int i = 0; i < x.length; i++) s = s.add(x[i].mul(y[i])); return s; }
  @TLAPlusOperator(identifier = "VDot", module = "Num", warn = false) public static Value VDot(Value a, Value b) { return val(dot(vec(a), vec(b))); }
  @TLAPlusOperator(identifier = "VSum", module = "Num", warn = false) public static Value VSum(Value a) { Rat s = Rat.Zero; for (Rat x : vec(a)) s = s.add(x); return val(s); }
  @TLAPlusOperator(identifier = "VNorm1", module = "Num", warn = false) public static Value VNorm1(Value a) { Rat s = Rat.Zero; for (Rat x : vec(a)) s = s.add(x.abs()); return val(s); }
  @TLAPlusOperator(identifier = "VNormInf", module = "Num", warn = false) public static Value VNormInf(Value a) { Rat s = Rat.Zero; for (Rat x : vec(a)) s = s.max(x.abs()); return val(s); }
  @TLAPlusOperator(identifier = "VFinite", module = "Num", warn = false) public static Value VFinite(Value a) { for (Rat x : vec(a)) if (!x.fin()) return bool(false); return bool(true); }
  @TLAPlusOperator(identifier = "VEq", module = "Num", warn = false) public static Value VEq(Value a, Value b) { Rat[] x = vec(a), y = vec(b); if (x.length != y.length) return bool(false); for (int i = 0; i < x.length; i++) if (!x[i].equals(y[i])) return bool(false); return bool(true); }
  @TLAPlusOperator(identifier = "MVec", module = "Num", warn = false) public static Value MVec(Value m, Value a) { Rat[][] M = mat(m); Rat[] x = vec(a), r = new Rat[M.length]; for (int i = 0; i < M.length; i++) r[i] = dot(M[i], x); return vecVal(r); }
  /** transpose(m) * a, with n columns given explicitly so that an empty matrix works. */
  @TLAPlusOperator(identifier = "MTVec", module = "Num", warn = false) public static Value MTVec(Value m, Value a, Value n) {
    Rat[][] M = mat(m); Rat[] x = vec(a); same(M.length, x.length, "MTVec"); int k = ((IntValue) n).val; Rat[] r = new Rat[k];
    for (int j = 0; j < k; j++) { r[j] = Rat.Zero; for (int i = 0; i < M.length; i++) r[j] = r[j].add(M[i][j].mul(x[i])); }
    return vecVal(r);
  }
  @TLAPlusOperator(identifier = "SymLow", module = "Num", warn = false) public static Value SymLow(Value m) { Rat[][] M = mat(m); for (int i = 0; i < M.length; i++) for (int j = i + 1; j < M.length; j++) M[i][j] = M[j][i]; return matVal(M); }

  // ---- exact linear algebra -------------------------------------------------
  private static boolean allFin(Rat[][] M) { for (Rat[] r : M) for (Rat x : r) if (!x.fin()) return false; return true; }
  /** Reduced row echelon form in place; returns pivot columns among the first nc columns. */
  private static int[] rref(Rat[][] M, int nc) {
    int rows = M.length, r = 0; int[] piv = new int[Math.min(rows, nc)];
    for (int c = 0; c < nc && r < rows; c++) {
      int p = -1; long best = Long.MAX_VALUE;
      for (int i = r; i < rows; i++) if (M[i][c].sgn() != 0) { long sz = M[i][c].n.bitLength() + M[i][c].d.bitLength(); if (sz < best) { best = sz; p = i; } }
      if (p < 0) continue;
      Rat[] t = M[p]; M[p] = M[r]; M[r] = t;
      Rat inv = Rat.One.div(M[r][c]);
      for (int j = c; j < M[r].length; j++) M[r][j] = M[r][j].mul(inv);
      for (int i = 0; i < rows; i++) if (i != r && M[i][c].sgn() != 0) { Rat f = M[i][c]; for (int j = c; j < M[r].length; j++) if (M[r][j].sgn() != 0) M[i][j] = M[i][j].sub(f.mul(M[r][j])); }
      piv[r++] = c;
    }
    return java.util.Arrays.copyOf(piv, r);
  }
  private static Rat[][] augment(Rat[][] M, Rat[] b) { Rat[][] A = new Rat[M.length][]; for (int i = 0; i < M.length; i++) { A[i] = java.util.Arrays.copyOf(M[i], M[i].length + 1); A[i][M[i].length] = b[i]; } return A; }
  /** Solve the square system exactly by fraction-free elimination; null if singular. */
  static Rat[] solve(Rat[][] M, Rat[] b) {
    int n = M.length; if (n == 0) return new Rat[0];
    Rat[][] A = augment(M, b);
    if (!allFin(A)) return null;
    BigInteger[][] B = new BigInteger[n][n + 1];
    for (int i = 0; i < n; i++) { // row scaling to integers
      BigInteger l = BigInteger.ONE; int me = Integer.MAX_VALUE; boolean any = false;
      for (Rat x : A[i]) if (x.sgn() != 0) { any = true; me = Math.min(me, x.e); if (!x.d.equals(BigInteger.ONE)) l = l.divide(l.gcd(x.d)).multiply(x.d); }
      if (!any) return null;
      for (int j = 0; j <= n; j++) { Rat x = A[i][j]; B[i][j] = x.sgn() == 0 ? BigInteger.ZERO : x.n.multiply(l.divide(x.d)).shiftLeft(x.e - me); }
    }
    BigInteger prev = BigInteger.ONE;
    for (int k = 0; k < n; k++) {
      int p = -1; for (int i = k; i < n; i++) if (B[i][k].signum() != 0 && (p < 0 || B[i][k].bitLength() < B[p][k].bitLength())) p = i;
      if (p < 0) return null;
      BigInteger[] t = B[p]; B[p] = B[k]; B[k] = t;
      for (int i = k + 1; i < n; i++) {
        BigInteger f = B[i][k];
        for (int j = k + 1; j <= n; j++) B[i][j] = B[i][j].multiply(B[k][k]).subtract(f.multiply(B[k][j])).divide(prev);
        B[i][k] = BigInteger.ZERO;
      }
      prev = B[k][k];
    }
    // back substitution: x_i = y_i / det where det = B[n-1][n-1]
    BigInteger det = B[n - 1][n - 1]; BigInteger[] y = new BigInteger[n];
    for (int i = n - 1; i >= 0; i--) {
      BigInteger s = B[i][n].multiply(det);
      for (int j = i + 1; j < n; j++) s = s.subtract(B[i][j].multiply(y[j]));
      y[i] = s.divide(B[i][i]);
    }
    Rat[] x = new Rat[n]; for (int i = 0; i < n; i++) x[i] = Rat.make(y[i], 0, det);
    return x;
  }
  @TLAPlusOperator(identifier = "LinSolve", module = "Num", warn = false) public static Value LinSolve(Value m, Value b) { Rat[] x = solve(mat(m), vec(b)); return x == null ? TupleValue.EmptyTuple : vecVal(x); }
  @TLAPlusOperator(identifier = "Regular", module = "Num", warn = false) public static Value Regular(Value m) { Rat[][] M = mat(m); Rat[] z = new Rat[M.length]; java.util.Arrays.fill(z, Rat.Zero); return bool(M.length == 0 || solve(M, z) != null); }
  @TLAPlusOperator(identifier = "Rank", module = "Num", warn = false) public static Value RankOp(Value m) { Rat[][] M = mat(m); return IntValue.gen(M.length == 0 ? 0 : rref(M, M[0].length).length); }
  @TLAPlusOperator(identifier = "Consistent", module = "Num", warn = false) public static Value Consistent(Value m, Value b) {
    Rat[][] M = mat(m); if (M.length == 0) return bool(true); Rat[][] A = augment(M, vec(b)); int n = M[0].length;
    int r1 = rref(M, n).length, r2 = rref(A, n + 1).length; return bool(r1 == r2);
  }
  /** Some solution of m x = b (free variables 0); requires Consistent. */
  @TLAPlusOperator(identifier = "Particular", module = "Num", warn = false) public static Value Particular(Value m, Value b, Value nn) {
    int n = ((IntValue) nn).val; Rat[] x = new Rat[n]; java.util.Arrays.fill(x, Rat.Zero);
    Rat[][] M = mat(m); if (M.length == 0) return vecVal(x);
    Rat[][] A = augment(M, vec(b)); int[] p = rref(A, n); for (int i = 0; i < p.length; i++) x[p[i]] = A[i][n]; return vecVal(x);
  }
  /** Rows of the result span the null space of m (n columns). */
  @TLAPlusOperator(identifier = "NullBasis", module = "Num", warn = false) public static Value NullBasis(Value m, Value nn) {
    int n = ((IntValue) nn).val; Rat[][] M = mat(m); int[] p = M.length == 0 ? new int[0] : rref(M, n);
    boolean[] isP = new boolean[n]; for (int c : p) isP[c] = true;
    Rat[][] Z = new Rat[n - p.length][n]; int k = 0;
    for (int f = 0; f < n; f++) if (!isP[f]) { java.util.Arrays.fill(Z[k], Rat.Zero); Z[k][f] = Rat.One; for (int i = 0; i < p.length; i++) Z[k][p[i]] = M[i][f].neg(); k++; }
    return matVal(Z);
  }
  /** Z * G * Z^T for rows of Z. */
  @TLAPlusOperator(identifier = "Congruence", module = "Num", warn = false) public static Value Congruence(Value z, Value g) {
    Rat[][] Z = mat(z), G = mat(g); int k = Z.length; Rat[][] R = new Rat[k][k];
    for (int i = 0; i < k; i++) { Rat[] gi = new Rat[G.length]; for (int a = 0; a < G.length; a++) gi[a] = dot(G[a], Z[i]); for (int j = 0; j < k; j++) R[j][i] = dot(Z[j], gi); }
    return matVal(R);
  }
  /** Inertia of a symmetric matrix by exact elimination: <<#neg, #zero, #pos>>. */
  static int[] inertia(Rat[][] A) {
    int neg = 0, pos = 0; java.util.ArrayList<Integer> act = new java.util.ArrayList<>(); for (int i = 0; i < A.length; i++) act.add(i);
    while (!act.isEmpty()) {
      int p = -1; for (int i : act) if (A[i][i].sgn() != 0) { p = i; break; }
      if (p >= 0) {
        if (A[p][p].sgn() > 0) pos++; else neg++;
        act.remove((Integer) p);
        for (int i : act) { Rat f = A[i][p].div(A[p][p]); if (f.sgn() != 0) for (int j : act) A[i][j] = A[i][j].sub(f.mul(A[p][j])); }
        // keep symmetric by construction
        continue;
      }
      int q = -1; for (int i : act) { for (int j : act) if (i < j && A[i][j].sgn() != 0) { p = i; q = j; break; } if (q >= 0) break; }
      if (q < 0) break;
      pos++; neg++; // [[0 a],[a 0]]
      act.remove((Integer) p); act.remove((Integer) q); Rat a = A[p][q];
      Rat[] cp = new Rat[A.length], cq = new Rat[A.length]; for (int i : act) { cp[i] = A[i][p]; cq[i] = A[i][q]; }
      for (int i : act) for (int j : act) A[i][j] = A[i][j].sub(cp[i].mul(cq[j]).add(cq[i].mul(cp[j])).div(a));
    }
    return new int[] { neg, A.length - neg - pos, pos };
  }
  @TLAPlusOperator(identifier = "Inertia", module = "Num", warn = false) public static Value Inertia(Value m) { int[] r = inertia(mat(m)); return new TupleValue(new Value[] { IntValue.gen(r[0]), IntValue.gen(r[1]), IntValue.gen(r[2]) }); }
  @TLAPlusOperator(identifier = "PosDef", module = "Num", warn = false) public static Value PosDef(Value m) { Rat[][] M = mat(m); return bool(inertia(M)[2] == M.length); }
  /** Approximation (double precision, only used inside tolerances) of the infinity norm of the inverse; inf if singular. */
  @TLAPlusOperator(identifier = "InvNorm", module = "Num", warn = false) public static Value InvNorm(Value m) {
    Rat[][] M = mat(m); int n = M.length; if (n == 0) return val(Rat.Zero);
    double[][] A = new double[n][2 * n];
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) A[i][j] = M[i][j].toDouble(); A[i][n + i] = 1; }
    for (int c = 0; c < n; c++) {
      int p = c; for (int i = c; i < n; i++) if (Math.abs(A[i][c]) > Math.abs(A[p][c])) p = i;
      if (!(Math.abs(A[p][c]) > 0)) return val(Rat.PosInf);
      double[] t = A[p]; A[p] = A[c]; A[c] = t; double iv = 1 / A[c][c];
      for (int j = 0; j < 2 * n; j++) A[c][j] *= iv;
      for (int i = 0; i < n; i++) if (i != c && A[i][c] != 0) { double f = A[i][c]; for (int j = 0; j < 2 * n; j++) A[i][j] -= f * A[c][j]; }
    }
    double best = 0; for (int i = 0; i < n; i++) { double s = 0; for (int j = n; j < 2 * n; j++) s += Math.abs(A[i][j]); best = Math.max(best, s); if (s != s) return val(Rat.PosInf); }
    return val(Rat.of(best));
  }
}
