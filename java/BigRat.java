// Exact rational arithmetic for TLC: overrides of the operators declared in spec/BigRat.tla.
// A number is a string: a decimal double ("0.1" denotes exactly the double 0.1), an integer ("-3"),
// a fraction ("1/3"), or one of "nan", "inf", "-inf".  Matrices are sequences of rows.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.HashMap;
import tlc2.value.impl.*;

public class BigRat {
  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d;
    }
    Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) {
      if (o.n.signum() == 0) throw new ArithmeticException("BigRat: division by zero");
      return new Q(n.multiply(o.d), d.multiply(o.n));
    }
    Q neg() { return new Q(n.negate(), d); }
    Q abs() { return n.signum() < 0 ? neg() : this; }
    int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    int sgn() { return n.signum(); }
    double dbl() { return new BigDecimal(n).divide(new BigDecimal(d), new java.math.MathContext(40)).doubleValue(); }
    public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
  }
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE), ONE = new Q(BigInteger.ONE, BigInteger.ONE);
  static final HashMap<String, Q> cache = new HashMap<>();

  static Q of(double x) {
    BigDecimal b = new BigDecimal(x);
    BigInteger u = b.unscaledValue();
    return b.scale() >= 0 ? new Q(u, BigInteger.TEN.pow(b.scale())) : new Q(u.multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
  }
  static synchronized Q parse(String s) {
    Q r = cache.get(s);
    if (r != null) return r;
    int i = s.indexOf('/');
    if (i >= 0) r = new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    else if (s.matches("[-+]?[0-9]+")) r = new Q(new BigInteger(s), BigInteger.ONE);
    else {
      if (s.equals("nan") || s.equals("inf") || s.equals("-inf")) throw new ArithmeticException("BigRat: not a number: " + s);
      r = of(Double.parseDouble(s));
    }
    if (cache.size() > 200000) cache.clear();
    cache.put(s, r);
    return r;
  }
  static String str(Value v) {
    if (v instanceof StringValue) return ((StringValue) v).val.toString();
    if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
    throw new RuntimeException("BigRat: not a number value: " + v);
  }
  static Q q(Value v) { return parse(str(v)); }
  static Value v(Q x) { return new StringValue(x.toString()); }
  static boolean special(String s) { return s.equals("nan") || s.equals("inf") || s.equals("-inf"); }
  static Value[] tup(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("BigRat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static Q[] vec(Value v) {
    Value[] e = tup(v);
    Q[] r = new Q[e.length];
    for (int i = 0; i < e.length; i++) r[i] = q(e[i]);
    return r;
  }
  static Q[][] mat(Value v) {
    Value[] e = tup(v);
    Q[][] r = new Q[e.length][];
    for (int i = 0; i < e.length; i++) r[i] = vec(e[i]);
    return r;
  }
  static Value v(Q[] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < x.length; i++) e[i] = v(x[i]);
    return new TupleValue(e);
  }
  static Value v(Q[][] x) {
    Value[] e = new Value[x.length];
    for (int i = 0; i < x.length; i++) e[i] = v(x[i]);
    return new TupleValue(e);
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static void same(int a, int b) { if (a != b) throw new RuntimeException("BigRat: dimension mismatch " + a + " vs " + b); }

  // ---- scalars
  public static Value RAdd(Value a, Value c) { return v(q(a).add(q(c))); }
  public static Value RSub(Value a, Value c) { return v(q(a).sub(q(c))); }
  public static Value RMul(Value a, Value c) { return v(q(a).mul(q(c))); }
  public static Value RDiv(Value a, Value c) { return v(q(a).div(q(c))); }
  public static Value RNeg(Value a) { return v(q(a).neg()); }
  public static Value RAbs(Value a) { return v(q(a).abs()); }
  public static Value RMax(Value a, Value c) { Q x = q(a), y = q(c); return v(x.cmp(y) >= 0 ? x : y); }
  public static Value RMin(Value a, Value c) { Q x = q(a), y = q(c); return v(x.cmp(y) <= 0 ? x : y); }
  public static Value RLt(Value a, Value c) {
    String s = str(a), t = str(c);
    if (s.equals("nan") || t.equals("nan")) return b(false);
    if (s.equals("-inf")) return b(!t.equals("-inf"));
    if (t.equals("inf")) return b(!s.equals("inf"));
    if (s.equals("inf") || t.equals("-inf")) return b(false);
    return b(parse(s).cmp(parse(t)) < 0);
  }
  public static Value RLe(Value a, Value c) {
    String s = str(a), t = str(c);
    if (s.equals("nan") || t.equals("nan")) return b(false);
    return b(!((BoolValue) RLt(c, a)).val);
  }
  public static Value REq(Value a, Value c) {
    String s = str(a), t = str(c);
    if (special(s) || special(t)) return b(s.equals(t) && !s.equals("nan"));
    return b(parse(s).cmp(parse(t)) == 0);
  }
  public static Value RIsNum(Value a) { return b(!special(str(a))); }
  public static Value RInt(Value a) { return v(q(a)); }
  static boolean close(String s, String t, Q tol) {
    if (special(s) || special(t)) return s.equals(t);
    Q x = parse(s), y = parse(t);
    Q m = ONE;
    if (x.abs().cmp(m) > 0) m = x.abs();
    if (y.abs().cmp(m) > 0) m = y.abs();
    return x.sub(y).abs().cmp(tol.mul(m)) <= 0;
  }
  public static Value RClose(Value a, Value c, Value tol) { return b(close(str(a), str(c), q(tol))); }
  // double-precision functions (accuracy of java.lang.Math), as exact rationals of the result
  public static Value RFun(Value f, Value a) {
    double x = q(a).dbl();
    String n = str(f);
    double y;
    if (n.equals("exp")) y = Math.exp(x);
    else if (n.equals("log")) y = Math.log(x);
    else if (n.equals("sqrt")) y = Math.sqrt(x);
    else if (n.equals("sin")) y = Math.sin(x);
    else if (n.equals("cos")) y = Math.cos(x);
    else throw new RuntimeException("RFun: " + n);
    return v(of(y));
  }
  // rounded to that many significant bits
  public static Value RRound(Value a, Value bits) {
    Q x = q(a); int k = ((IntValue) bits).val;
    if (x.sgn() == 0) return a;
    int sh = k - (x.n.abs().bitLength() - x.d.bitLength());
    BigInteger n = x.n, d = x.d;
    if (sh >= 0) n = n.shiftLeft(sh); else d = d.shiftLeft(-sh);
    BigInteger r = n.divide(d);
    return v(sh >= 0 ? new Q(r, BigInteger.ONE.shiftLeft(sh)) : new Q(r.shiftLeft(-sh), BigInteger.ONE));
  }
  public static Value RFloat32(Value a) {
    String s = str(a);
    if (special(s)) return a;
    // exact rational -> nearest double -> nearest float (double rounding is harmless: inputs are doubles)
    return v(of((double) (float) parse(s).dbl()));
  }

  // printed in scientific notation (or with a fixed number of decimals): the exact value rounded half to even
  public static Value RSci(Value a, Value digits) {
    String s = str(a);
    if (special(s)) return a;
    int p = ((IntValue) digits).val;
    Q x = parse(s);
    if (x.sgn() == 0) return new StringValue((p == 0 ? "0" : "0." + "0".repeat(p)) + "e+00");
    BigDecimal b = new BigDecimal(x.n).divide(new BigDecimal(x.d), new java.math.MathContext(60)).round(new java.math.MathContext(p + 1, java.math.RoundingMode.HALF_EVEN));
    String u = b.unscaledValue().abs().toString();
    int e = u.length() - 1 - b.scale();
    while (u.length() < p + 1) u += "0";
    String m = p == 0 ? u.substring(0, 1) : u.substring(0, 1) + "." + u.substring(1, p + 1);
    String t = Integer.toString(Math.abs(e));
    return new StringValue((x.sgn() < 0 ? "-" : "") + m + "e" + (e < 0 ? "-" : "+") + (t.length() < 2 ? "0" + t : t));
  }
  public static Value RFix(Value a, Value digits) {
    String s = str(a);
    if (special(s)) return a;
    Q x = parse(s);
    return new StringValue(new BigDecimal(x.n).divide(new BigDecimal(x.d), ((IntValue) digits).val, java.math.RoundingMode.HALF_EVEN).toPlainString());
  }

  // ---- vectors
  public static Value VAdd(Value a, Value c) { Q[] x = vec(a), y = vec(c); same(x.length, y.length); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i].add(y[i]); return v(r); }
  public static Value VSub(Value a, Value c) { Q[] x = vec(a), y = vec(c); same(x.length, y.length); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i].sub(y[i]); return v(r); }
  public static Value VMulE(Value a, Value c) { Q[] x = vec(a), y = vec(c); same(x.length, y.length); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i].mul(y[i]); return v(r); }
  public static Value VScale(Value k, Value a) { Q[] x = vec(a); Q s = q(k); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = s.mul(x[i]); return v(r); }
  public static Value VDot(Value a, Value c) { Q[] x = vec(a), y = vec(c); same(x.length, y.length); Q r = ZERO; for (int i = 0; i < x.length; i++) r = r.add(x[i].mul(y[i])); return v(r); }
  public static Value VSum(Value a) { Q[] x = vec(a); Q r = ZERO; for (Q e : x) r = r.add(e); return v(r); }
  public static Value VNorm1(Value a) { Q[] x = vec(a); Q r = ZERO; for (Q e : x) r = r.add(e.abs()); return v(r); }
  public static Value VNormInf(Value a) { Q[] x = vec(a); Q r = ZERO; for (Q e : x) if (e.abs().cmp(r) > 0) r = e.abs(); return v(r); }
  public static Value VZero(Value n) { int k = ((IntValue) n).val; Q[] r = new Q[k]; for (int i = 0; i < k; i++) r[i] = ZERO; return v(r); }
  public static Value VClose(Value a, Value c, Value tol) {
    Value[] x = tup(a), y = tup(c);
    if (x.length != y.length) return b(false);
    Q t = q(tol);
    // the tolerance is relative to the largest entry of the two vectors
    Q m = ONE;
    for (int i = 0; i < x.length; i++) {
      if (special(str(x[i])) || special(str(y[i]))) continue;
      Q u = q(x[i]).abs(), w = q(y[i]).abs();
      if (u.cmp(m) > 0) m = u;
      if (w.cmp(m) > 0) m = w;
    }
    Q lim = t.mul(m);
    for (int i = 0; i < x.length; i++) {
      String s = str(x[i]), s2 = str(y[i]);
      if (special(s) || special(s2)) { if (!s.equals(s2)) return b(false); continue; }
      if (parse(s).sub(parse(s2)).abs().cmp(lim) > 0) return b(false);
    }
    return b(true);
  }
  public static Value VEq(Value a, Value c) {
    Value[] x = tup(a), y = tup(c);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (!((BoolValue) REq(x[i], y[i])).val) return b(false);
    return b(true);
  }
  public static Value VIsNum(Value a) { for (Value e : tup(a)) if (special(str(e))) return b(false); return b(true); }

  // ---- matrices (sequences of rows)
  public static Value MAdd(Value a, Value c) { Q[][] x = mat(a), y = mat(c); same(x.length, y.length); Q[][] r = new Q[x.length][]; for (int i = 0; i < r.length; i++) { same(x[i].length, y[i].length); r[i] = new Q[x[i].length]; for (int j = 0; j < r[i].length; j++) r[i][j] = x[i][j].add(y[i][j]); } return v(r); }
  public static Value MSub(Value a, Value c) { Q[][] x = mat(a), y = mat(c); same(x.length, y.length); Q[][] r = new Q[x.length][]; for (int i = 0; i < r.length; i++) { same(x[i].length, y[i].length); r[i] = new Q[x[i].length]; for (int j = 0; j < r[i].length; j++) r[i][j] = x[i][j].sub(y[i][j]); } return v(r); }
  public static Value MScale(Value k, Value a) { Q[][] x = mat(a); Q s = q(k); for (Q[] row : x) for (int j = 0; j < row.length; j++) row[j] = s.mul(row[j]); return v(x); }
  static Q[][] mul(Q[][] x, Q[][] y) {
    int m = x.length, k = m == 0 ? y.length : x[0].length;
    same(k, y.length);
    int n = k == 0 ? 0 : y[0].length;
    Q[][] r = new Q[m][n];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { Q s = ZERO; for (int l = 0; l < k; l++) s = s.add(x[i][l].mul(y[l][j])); r[i][j] = s; }
    return r;
  }
  public static Value MMul(Value a, Value c) { return v(mul(mat(a), mat(c))); }
  static Q[][] tr(Q[][] x) {
    if (x.length == 0) return x;
    Q[][] r = new Q[x[0].length][x.length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[0].length; j++) r[j][i] = x[i][j];
    return r;
  }
  public static Value MT(Value a) { return v(tr(mat(a))); }
  // matrix * vector
  public static Value MV(Value a, Value c) { Q[][] x = mat(a); Q[] y = vec(c); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) { same(x[i].length, y.length); Q s = ZERO; for (int j = 0; j < y.length; j++) s = s.add(x[i][j].mul(y[j])); r[i] = s; } return v(r); }
  // transpose(matrix) * vector; n = number of columns of the matrix (needed when it has no rows)
  public static Value MTV(Value a, Value c, Value n) {
    Q[][] x = mat(a); Q[] y = vec(c); same(x.length, y.length);
    int k = ((IntValue) n).val; Q[] r = new Q[k];
    for (int j = 0; j < k; j++) { Q s = ZERO; for (int i = 0; i < y.length; i++) s = s.add(x[i][j].mul(y[i])); r[j] = s; }
    return v(r);
  }
  public static Value MId(Value n) { int k = ((IntValue) n).val; Q[][] r = new Q[k][k]; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) r[i][j] = i == j ? ONE : ZERO; return v(r); }
  public static Value MZero(Value m, Value n) { int k = ((IntValue) m).val, l = ((IntValue) n).val; Q[][] r = new Q[k][l]; for (int i = 0; i < k; i++) for (int j = 0; j < l; j++) r[i][j] = ZERO; return v(r); }
  public static Value MDiag(Value a) { Q[] x = vec(a); int k = x.length; Q[][] r = new Q[k][k]; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) r[i][j] = i == j ? x[i] : ZERO; return v(r); }
  public static Value MClose(Value a, Value c, Value tol) {
    Value[] x = tup(a), y = tup(c);
    if (x.length != y.length) return b(false);
    ArrayList<Value> f = new ArrayList<>(), g = new ArrayList<>();
    for (int i = 0; i < x.length; i++) {
      Value[] p = tup(x[i]), r = tup(y[i]);
      if (p.length != r.length) return b(false);
      for (int j = 0; j < p.length; j++) { f.add(p[j]); g.add(r[j]); }
    }
    return VClose(new TupleValue(f.toArray(new Value[0])), new TupleValue(g.toArray(new Value[0])), tol);
  }
  public static Value MEq(Value a, Value c) {
    Value[] x = tup(a), y = tup(c);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++) if (!((BoolValue) VEq(x[i], y[i])).val) return b(false);
    return b(true);
  }
  public static Value MIsNum(Value a) { for (Value r : tup(a)) if (!((BoolValue) VIsNum(r)).val) return b(false); return b(true); }
  static Q[][] solve(Q[][] a, Q[][] rhs) {
    int n = a.length, m = n == 0 ? 0 : rhs[0].length;
    for (int c = 0; c < n; c++) {
      int p = -1;
      for (int i = c; i < n; i++) if (a[i][c].sgn() != 0) { p = i; break; }
      if (p < 0) return null;
      Q[] t = a[p]; a[p] = a[c]; a[c] = t; t = rhs[p]; rhs[p] = rhs[c]; rhs[c] = t;
      for (int i = 0; i < n; i++) if (i != c && a[i][c].sgn() != 0) {
        Q f = a[i][c].div(a[c][c]);
        for (int j = c; j < n; j++) a[i][j] = a[i][j].sub(f.mul(a[c][j]));
        for (int j = 0; j < m; j++) rhs[i][j] = rhs[i][j].sub(f.mul(rhs[c][j]));
      }
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) rhs[i][j] = rhs[i][j].div(a[i][i]);
    return rhs;
  }
  // exact solution X of A X = B (error when A is singular)
  public static Value MSolve(Value a, Value c) { Q[][] r = solve(mat(a), mat(c)); if (r == null) throw new ArithmeticException("MSolve: singular"); return v(r); }
  public static Value MNonSingular(Value a) { Q[][] x = mat(a); Q[][] id = new Q[x.length][1]; for (Q[] r : id) r[0] = ZERO; return b(x.length == 0 || solve(x, id) != null); }
  // exact positive definiteness (all pivots of the symmetric elimination positive); only the lower triangle is read
  public static Value MIsPD(Value a) {
    Q[][] x = mat(a); int n = x.length;
    for (int c = 0; c < n; c++) {
      if (x[c][c].sgn() <= 0) return b(false);
      for (int i = c + 1; i < n; i++) { Q f = x[i][c].div(x[c][c]); for (int j = c + 1; j <= i; j++) x[i][j] = x[i][j].sub(f.mul(x[j][c])); }
    }
    return b(true);
  }
}
