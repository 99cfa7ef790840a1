package bp;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluation of module F64 (reals as doubles) for TLC. */
public final class F64Ov {
  static double d(Value v) {
    if (v instanceof FVal) return ((FVal) v).d;
    if (v instanceof IntValue) return ((IntValue) v).val;
    throw new RuntimeException("not a real: " + v);
  }
  static FVal e(double x) { return new FVal(x); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static double[] vec(Value v) {
    Value[] s = seq(v);
    double[] r = new double[s.length];
    for (int i = 0; i < r.length; i++) r[i] = d(s[i]);
    return r;
  }
  static Value tup(double[] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = new FVal(a[i]);
    return new TupleValue(r);
  }
  static int[] ivec(Value v) {
    Value[] s = seq(v);
    int[] r = new int[s.length];
    for (int i = 0; i < r.length; i++) r[i] = ((IntValue) s[i]).val;
    return r;
  }
  static double parse(String s) {
    switch (s) {
      case "nan": return Double.NaN;
      case "inf": return Double.POSITIVE_INFINITY;
      case "-inf": return Double.NEGATIVE_INFINITY;
      default: return Double.parseDouble(s);
    }
  }

  @TLAPlusOperator(identifier = "FInt", module = "F64", warn = false)
  public static Value fint(IntValue a) { return e(a.val); }
  @TLAPlusOperator(identifier = "FRat", module = "F64", warn = false)
  public static Value frat(IntValue a, IntValue c) { return e((double) a.val / c.val); }
  @TLAPlusOperator(identifier = "FParse", module = "F64", warn = false)
  public static Value fparse(StringValue s) { return e(parse(s.getVal().toString())); }
  @TLAPlusOperator(identifier = "FVec", module = "F64", warn = false)
  public static Value fvec(StringValue s) {
    String t = s.getVal().toString().trim();
    if (t.isEmpty()) return new TupleValue(new Value[0]);
    String[] p = t.split(" ");
    Value[] r = new Value[p.length];
    for (int i = 0; i < r.length; i++) r[i] = e(parse(p[i]));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "FAdd", module = "F64", warn = false)
  public static Value fadd(Value a, Value c) { return e(d(a) + d(c)); }
  @TLAPlusOperator(identifier = "FSub", module = "F64", warn = false)
  public static Value fsub(Value a, Value c) { return e(d(a) - d(c)); }
  @TLAPlusOperator(identifier = "FMul", module = "F64", warn = false)
  public static Value fmul(Value a, Value c) { return e(d(a) * d(c)); }
  @TLAPlusOperator(identifier = "FDiv", module = "F64", warn = false)
  public static Value fdiv(Value a, Value c) { return e(d(a) / d(c)); }
  @TLAPlusOperator(identifier = "FNeg", module = "F64", warn = false)
  public static Value fneg(Value a) { return e(-d(a)); }
  @TLAPlusOperator(identifier = "FAbs", module = "F64", warn = false)
  public static Value fabs(Value a) { return e(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "FExp", module = "F64", warn = false)
  public static Value fexp(Value a) { return e(Math.exp(d(a))); }
  @TLAPlusOperator(identifier = "FLog", module = "F64", warn = false)
  public static Value flog(Value a) { return e(Math.log(d(a))); }
  @TLAPlusOperator(identifier = "FSqrt", module = "F64", warn = false)
  public static Value fsqrt(Value a) { return e(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "FLgamma", module = "F64", warn = false)
  public static Value flg(Value a) { return e(lgamma(d(a))); }
  @TLAPlusOperator(identifier = "FDigamma", module = "F64", warn = false)
  public static Value fdg(Value a) { return e(digamma(d(a))); }
  @TLAPlusOperator(identifier = "FMax", module = "F64", warn = false)
  public static Value fmax(Value a, Value c) { return e(Math.max(d(a), d(c))); }
  @TLAPlusOperator(identifier = "FLt", module = "F64", warn = false)
  public static Value flt(Value a, Value c) { return b(d(a) < d(c)); }
  @TLAPlusOperator(identifier = "FLe", module = "F64", warn = false)
  public static Value fle(Value a, Value c) { return b(d(a) <= d(c)); }
  @TLAPlusOperator(identifier = "FIsNaN", module = "F64", warn = false)
  public static Value fisnan(Value a) { return b(Double.isNaN(d(a))); }
  @TLAPlusOperator(identifier = "FIsFin", module = "F64", warn = false)
  public static Value fisfin(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
  @TLAPlusOperator(identifier = "FClose", module = "F64", warn = false)
  public static Value fclose(Value a, Value c, Value rtol, Value atol) {
    return b(close(d(a), d(c), d(rtol), d(atol), 0));
  }
  static boolean close(double x, double y, double rtol, double atol, double scale) {
    if (x == y) return true;
    double df = Math.abs(x - y);
    return df <= atol + rtol * Math.max(scale, Math.max(Math.abs(x), Math.abs(y))) && !Double.isInfinite(df);
  }

  // ------------------------------------------------------------- vectors
  @TLAPlusOperator(identifier = "VClose", module = "F64", warn = false)
  public static Value vclose(Value a, Value c, Value rtol, Value atol) {
    double[] x = vec(a), y = vec(c);
    if (x.length != y.length) return b(false);
    double s = 0;
    for (int i = 0; i < x.length; i++) {
      if (!Double.isInfinite(x[i]) && !Double.isNaN(x[i])) s = Math.max(s, Math.abs(x[i]));
      if (!Double.isInfinite(y[i]) && !Double.isNaN(y[i])) s = Math.max(s, Math.abs(y[i]));
    }
    for (int i = 0; i < x.length; i++)
      if (!close(x[i], y[i], d(rtol), d(atol), s)) return b(false);
    return b(true);
  }
  @TLAPlusOperator(identifier = "VSame", module = "F64", warn = false)
  public static Value vsame(Value a, Value c) {
    double[] x = vec(a), y = vec(c);
    if (x.length != y.length) return b(false);
    for (int i = 0; i < x.length; i++)
      if (!(x[i] == y[i] || (Double.isNaN(x[i]) && Double.isNaN(y[i])))) return b(false);
    return b(true);
  }
  @TLAPlusOperator(identifier = "VSum", module = "F64", warn = false)
  public static Value vsum(Value a) { double s = 0; for (double x : vec(a)) s += x; return e(s); }
  @TLAPlusOperator(identifier = "VDot", module = "F64", warn = false)
  public static Value vdot(Value a, Value c) {
    double[] x = vec(a), y = vec(c);
    if (x.length != y.length) throw new RuntimeException("VDot: lengths " + x.length + " " + y.length);
    double s = 0;
    // 0 * (-inf) is 0 in a moment/parameter product (an impossible category)
    for (int i = 0; i < x.length; i++) {
      if ((x[i] == 0 && Double.isInfinite(y[i])) || (y[i] == 0 && Double.isInfinite(x[i]))) continue;
      s += x[i] * y[i];
    }
    return e(s);
  }
  @TLAPlusOperator(identifier = "VAdd", module = "F64", warn = false)
  public static Value vadd(Value a, Value c) {
    double[] x = vec(a), y = vec(c), r = new double[x.length];
    if (x.length != y.length) throw new RuntimeException("VAdd: lengths");
    for (int i = 0; i < x.length; i++) r[i] = x[i] + y[i];
    return tup(r);
  }
  @TLAPlusOperator(identifier = "VSub", module = "F64", warn = false)
  public static Value vsub(Value a, Value c) {
    double[] x = vec(a), y = vec(c), r = new double[x.length];
    if (x.length != y.length) throw new RuntimeException("VSub: lengths");
    // the difference of two equal (infinite) parameters is 0
    for (int i = 0; i < x.length; i++) r[i] = x[i] == y[i] ? 0 : x[i] - y[i];
    return tup(r);
  }
  @TLAPlusOperator(identifier = "VScale", module = "F64", warn = false)
  public static Value vscale(Value k, Value a) {
    double[] x = vec(a);
    double[] r = new double[x.length];
    for (int i = 0; i < x.length; i++) r[i] = d(k) * x[i];
    return tup(r);
  }
  @TLAPlusOperator(identifier = "VConst", module = "F64", warn = false)
  public static Value vconst(IntValue n, Value x) {
    double[] r = new double[n.val];
    java.util.Arrays.fill(r, d(x));
    return tup(r);
  }
  @TLAPlusOperator(identifier = "VUnit", module = "F64", warn = false)
  public static Value vunit(IntValue n, IntValue k) {
    double[] r = new double[n.val];
    if (k.val >= 1 && k.val <= n.val) r[k.val - 1] = 1;
    return tup(r);
  }
  @TLAPlusOperator(identifier = "VOuter", module = "F64", warn = false)
  public static Value vouter(Value a, Value c) {
    double[] x = vec(a), y = vec(c), r = new double[x.length * y.length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i * y.length + j] = x[i] * y[j];
    return tup(r);
  }
  @TLAPlusOperator(identifier = "VSym", module = "F64", warn = false)
  public static Value vsym(IntValue n_, Value a) {
    int n = n_.val;
    double[] x = vec(a), r = new double[n * n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i * n + j] = 0.5 * (x[i * n + j] + x[j * n + i]);
    return tup(r);
  }
  @TLAPlusOperator(identifier = "MMul", module = "F64", warn = false)
  public static Value mmul(IntValue n_, IntValue m_, IntValue p_, Value a, Value c) {
    int n = n_.val, m = m_.val, p = p_.val;
    double[] x = vec(a), y = vec(c), r = new double[n * p];
    if (x.length != n * m || y.length != m * p) throw new RuntimeException("MMul: sizes");
    for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) {
      double s = 0;
      for (int k = 0; k < m; k++) s += x[i * m + k] * y[k * p + j];
      r[i * p + j] = s;
    }
    return tup(r);
  }
  static double[][] lu(int n, double[] a, int[] perm, double[] ld) {
    double[][] m = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = a[i * n + j];
    double sgn = 1, l = 0;
    for (int i = 0; i < n; i++) perm[i] = i;
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++) if (Math.abs(m[i][k]) > Math.abs(m[p][k])) p = i;
      if (p != k) { double[] t = m[p]; m[p] = m[k]; m[k] = t; int q = perm[p]; perm[p] = perm[k]; perm[k] = q; sgn = -sgn; }
      if (m[k][k] < 0) sgn = -sgn;
      l += Math.log(Math.abs(m[k][k]));
      for (int i = k + 1; i < n; i++) {
        m[i][k] /= m[k][k];
        for (int j = k + 1; j < n; j++) m[i][j] -= m[i][k] * m[k][j];
      }
    }
    ld[0] = sgn > 0 ? l : Double.NaN;
    ld[1] = l;
    return m;
  }
  @TLAPlusOperator(identifier = "MInv", module = "F64", warn = false)
  public static Value minv(IntValue n_, Value a) {
    int n = n_.val;
    int[] perm = new int[n];
    double[][] m = lu(n, vec(a), perm, new double[2]);
    double[] r = new double[n * n];
    for (int c = 0; c < n; c++) {
      double[] y = new double[n];
      for (int i = 0; i < n; i++) {
        y[i] = perm[i] == c ? 1 : 0;
        for (int j = 0; j < i; j++) y[i] -= m[i][j] * y[j];
      }
      for (int i = n - 1; i >= 0; i--) {
        for (int j = i + 1; j < n; j++) y[i] -= m[i][j] * y[j];
        y[i] /= m[i][i];
        r[i * n + c] = y[i];
      }
    }
    return tup(r);
  }
  @TLAPlusOperator(identifier = "MLogDet", module = "F64", warn = false)
  public static Value mlogdet(IntValue n_, Value a) {
    int n = n_.val;
    double[] ld = new double[2];
    lu(n, vec(a), new int[n], ld);
    return e(ld[0]);
  }
  @TLAPlusOperator(identifier = "MLogAbsDet", module = "F64", warn = false)
  public static Value mlogabsdet(IntValue n_, Value a) {
    int n = n_.val;
    double[] ld = new double[2];
    lu(n, vec(a), new int[n], ld);
    return e(ld[1]);
  }
  @TLAPlusOperator(identifier = "FStr", module = "F64", warn = false)
  public static Value fstr(Value a) { return new StringValue(Double.toString(d(a))); }

  // ------------------------------------------------------------- shapes (module Nd)
  @TLAPlusOperator(identifier = "BFlat", module = "Nd", warn = false)
  public static Value bflat(Value sh_, Value idx_) {
    int[] sh = ivec(sh_), idx = ivec(idx_);
    int off = idx.length - sh.length;
    if (off < 0) throw new RuntimeException("BFlat: index shorter than the shape");
    int f = 0;
    for (int i = 0; i < sh.length; i++) {
      int v = sh[i] == 1 ? 0 : idx[i + off];
      if (v < 0 || v >= sh[i]) throw new RuntimeException("BFlat: index out of range " + sh_ + idx_);
      f = f * sh[i] + v;
    }
    return IntValue.gen(f + 1);
  }
  @TLAPlusOperator(identifier = "UnFlat", module = "Nd", warn = false)
  public static Value unflat(Value sh_, IntValue e_) {
    int[] sh = ivec(sh_);
    int f = e_.val - 1;
    Value[] r = new Value[sh.length];
    for (int i = sh.length - 1; i >= 0; i--) { r[i] = IntValue.gen(f % sh[i]); f /= sh[i]; }
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "Prod", module = "Nd", warn = false)
  public static Value prod(Value sh_) {
    int f = 1;
    for (int x : ivec(sh_)) f *= x;
    return IntValue.gen(f);
  }

  // ------------------------------------------------------------- special functions
  static final double[] STIR = {1.0/12, -1.0/360, 1.0/1260, -1.0/1680, 1.0/1188, -691.0/360360, 1.0/156, -3617.0/122400};
  static final double[] PSI = {-1.0/12, 1.0/120, -1.0/252, 1.0/240, -1.0/132, 691.0/32760, -1.0/12, 3617.0/8160};
  static double lgamma(double x) {
    if (Double.isNaN(x) || x < 0) return Double.NaN;
    if (x == 0 || Double.isInfinite(x)) return Double.POSITIVE_INFINITY;
    if (x == 1 || x == 2) return 0;
    double sh = 0;
    double p = 1;
    while (x < 15) { p *= x; x += 1; }
    sh = Math.log(p);
    double r = (x - 0.5) * Math.log(x) - x + 0.5 * Math.log(2 * Math.PI), x2 = 1 / (x * x), t = 1 / x;
    for (double c : STIR) { r += c * t; t *= x2; }
    return r - sh;
  }
  static double digamma(double x) {
    if (Double.isNaN(x) || x <= 0) return Double.NaN;
    double s = 0;
    while (x < 15) { s -= 1 / x; x += 1; }
    double r = Math.log(x) - 0.5 / x, x2 = 1 / (x * x), t = x2;
    for (double c : PSI) { r += c * t; t *= x2; }
    return r + s;
  }
}
