import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
import java.util.*;

/** Double precision complex arithmetic for the TLA+ module Num.
 *  Only arithmetic lives here (the role TLC's own Java override of Integers
 *  plays for integers); all models are in the TLA+ modules. */
public class NumOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[]{ NumOverrides.class }; }

  static final double[] d(Value v) {
    if (v instanceof NumValue) { NumValue n = (NumValue) v; return new double[]{n.re, n.im}; }
    if (v instanceof IntValue) return new double[]{((IntValue) v).val, 0};
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      return parse1(s);
    }
    throw new RuntimeException("Num: not a number: " + v);
  }
  static double pd(String s) {
    s = s.trim();
    if (s.equals("nan") || s.equals("-nan")) return Double.NaN;
    if (s.equals("inf")) return Double.POSITIVE_INFINITY;
    if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
    return Double.parseDouble(s);
  }
  static double[] parse1(String s) {
    int c = s.indexOf(',');
    if (c < 0) return new double[]{pd(s), 0};
    return new double[]{pd(s.substring(0, c)), pd(s.substring(c + 1))};
  }
  static Value n(double re, double im) { return new NumValue(re, im); }
  static Value n(double[] x) { return new NumValue(x[0], x[1]); }
  static double[][] vec(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Num: not a sequence: " + v);
    double[][] r = new double[t.elems.length][];
    for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
    return r;
  }
  static double[][][] mat(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    double[][][] r = new double[t.elems.length][][];
    for (int i = 0; i < r.length; i++) r[i] = vec(t.elems[i]);
    return r;
  }
  static Value mk(double[][] v) {
    Value[] e = new Value[v.length];
    for (int i = 0; i < e.length; i++) e[i] = n(v[i]);
    return new TupleValue(e);
  }
  static Value mkm(double[][][] m) {
    Value[] e = new Value[m.length];
    for (int i = 0; i < e.length; i++) e[i] = mk(m[i]);
    return new TupleValue(e);
  }
  static double[] add(double[] a, double[] b) { return new double[]{a[0] + b[0], a[1] + b[1]}; }
  static double[] sub(double[] a, double[] b) { return new double[]{a[0] - b[0], a[1] - b[1]}; }
  static double[] mul(double[] a, double[] b) {
    return new double[]{a[0]*b[0] - a[1]*b[1], a[0]*b[1] + a[1]*b[0]};
  }
  static double[] div(double[] a, double[] b) {
    if (b[1] == 0) return new double[]{a[0]/b[0], a[1]/b[0]};
    if (Math.abs(b[0]) >= Math.abs(b[1])) {
      double r = b[1]/b[0], t = b[0] + b[1]*r;
      return new double[]{(a[0] + a[1]*r)/t, (a[1] - a[0]*r)/t};
    } else {
      double r = b[0]/b[1], t = b[0]*r + b[1];
      return new double[]{(a[0]*r + a[1])/t, (a[1]*r - a[0])/t};
    }
  }
  static double[] exp(double[] a) { double e = Math.exp(a[0]);
    return a[1] == 0 ? new double[]{e, 0} : new double[]{e*Math.cos(a[1]), e*Math.sin(a[1])}; }
  static double[] log(double[] a) { return new double[]{Math.log(Math.hypot(a[0], a[1])), Math.atan2(a[1], a[0])}; }
  static double[] sqrt(double[] a) {
    double m = Math.hypot(a[0], a[1]);
    if (m == 0) return new double[]{0, 0};
    double s = Math.sqrt((Math.abs(a[0]) + m)/2);
    if (a[0] >= 0) return new double[]{s, a[1]/(2*s)};
    return new double[]{Math.abs(a[1])/(2*s), a[1] < 0 ? -s : s};
  }

  @TLAPlusOperator(identifier = "Num", module = "Num", warn = false)
  public static Value num(Value a) { return n(d(a)); }
  @TLAPlusOperator(identifier = "Cx", module = "Num", warn = false)
  public static Value cx(Value a, Value b) { return n(d(a)[0], d(b)[0]); }
  @TLAPlusOperator(identifier = "CAdd", module = "Num", warn = false)
  public static Value cadd(Value a, Value b) { return n(add(d(a), d(b))); }
  @TLAPlusOperator(identifier = "CSub", module = "Num", warn = false)
  public static Value csub(Value a, Value b) { return n(sub(d(a), d(b))); }
  @TLAPlusOperator(identifier = "CMul", module = "Num", warn = false)
  public static Value cmul(Value a, Value b) { return n(mul(d(a), d(b))); }
  @TLAPlusOperator(identifier = "CDiv", module = "Num", warn = false)
  public static Value cdiv(Value a, Value b) { return n(div(d(a), d(b))); }
  @TLAPlusOperator(identifier = "CNeg", module = "Num", warn = false)
  public static Value cneg(Value a) { double[] x = d(a); return n(-x[0], -x[1]); }
  @TLAPlusOperator(identifier = "CConj", module = "Num", warn = false)
  public static Value cconj(Value a) { double[] x = d(a); return n(x[0], -x[1]); }
  @TLAPlusOperator(identifier = "CAbs", module = "Num", warn = false)
  public static Value cabs(Value a) { double[] x = d(a); return n(Math.hypot(x[0], x[1]), 0); }
  @TLAPlusOperator(identifier = "CRe", module = "Num", warn = false)
  public static Value cre(Value a) { return n(d(a)[0], 0); }
  @TLAPlusOperator(identifier = "CIm", module = "Num", warn = false)
  public static Value cim(Value a) { return n(d(a)[1], 0); }
  @TLAPlusOperator(identifier = "CArg", module = "Num", warn = false)
  public static Value carg(Value a) { double[] x = d(a); return n(Math.atan2(x[1], x[0]), 0); }
  @TLAPlusOperator(identifier = "CExp", module = "Num", warn = false)
  public static Value cexp(Value a) { return n(exp(d(a))); }
  @TLAPlusOperator(identifier = "CLog", module = "Num", warn = false)
  public static Value clog(Value a) { return n(log(d(a))); }
  @TLAPlusOperator(identifier = "CSqrt", module = "Num", warn = false)
  public static Value csqrt(Value a) { return n(sqrt(d(a))); }
  @TLAPlusOperator(identifier = "CCos", module = "Num", warn = false)
  public static Value ccos(Value a) { double[] x = d(a);
    return n(Math.cos(x[0])*Math.cosh(x[1]), -Math.sin(x[0])*Math.sinh(x[1])); }
  @TLAPlusOperator(identifier = "CSin", module = "Num", warn = false)
  public static Value csin(Value a) { double[] x = d(a);
    return n(Math.sin(x[0])*Math.cosh(x[1]), Math.cos(x[0])*Math.sinh(x[1])); }
  /** integer power by repeated multiplication */
  @TLAPlusOperator(identifier = "CPow", module = "Num", warn = false)
  public static Value cpow(Value a, Value k) {
    int e = ((IntValue) k).val; double[] x = d(a), r = {1, 0};
    if (e < 0) { x = div(new double[]{1, 0}, x); e = -e; }
    while (e > 0) { if ((e & 1) == 1) r = mul(r, x); x = mul(x, x); e >>= 1; }
    return n(r);
  }
  /** real power of a positive real */
  @TLAPlusOperator(identifier = "RPow", module = "Num", warn = false)
  public static Value rpow(Value a, Value k) { return n(Math.pow(d(a)[0], d(k)[0]), 0); }
  @TLAPlusOperator(identifier = "RLe", module = "Num", warn = false)
  public static Value rle(Value a, Value b) { return d(a)[0] <= d(b)[0] ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "RLt", module = "Num", warn = false)
  public static Value rlt(Value a, Value b) { return d(a)[0] < d(b)[0] ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "CEq", module = "Num", warn = false)
  public static Value ceq(Value a, Value b) { double[] x = d(a), y = d(b);
    return x[0] == y[0] && x[1] == y[1] ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "CFinite", module = "Num", warn = false)
  public static Value cfin(Value a) { double[] x = d(a);
    return Double.isFinite(x[0]) && Double.isFinite(x[1]) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  @TLAPlusOperator(identifier = "RMax", module = "Num", warn = false)
  public static Value rmax(Value a, Value b) { return n(Math.max(d(a)[0], d(b)[0]), 0); }
  @TLAPlusOperator(identifier = "RMin", module = "Num", warn = false)
  public static Value rmin(Value a, Value b) { return n(Math.min(d(a)[0], d(b)[0]), 0); }
  @TLAPlusOperator(identifier = "RFloor", module = "Num", warn = false)
  public static Value rfloor(Value a) { return IntValue.gen((int) Math.floor(d(a)[0])); }
  @TLAPlusOperator(identifier = "RRound", module = "Num", warn = false)
  public static Value rround(Value a) { return IntValue.gen((int) Math.rint(d(a)[0])); }

  // ----- sequences
  @TLAPlusOperator(identifier = "VSum", module = "Num", warn = false)
  public static Value vsum(Value v) { double[] s = {0, 0}; for (double[] x : vec(v)) s = add(s, x); return n(s); }
  @TLAPlusOperator(identifier = "VDot", module = "Num", warn = false)
  public static Value vdot(Value u, Value v) { double[][] a = vec(u), b = vec(v); double[] s = {0, 0};
    if (a.length != b.length) throw new RuntimeException("VDot length");
    for (int i = 0; i < a.length; i++) s = add(s, mul(a[i], b[i])); return n(s); }
  @TLAPlusOperator(identifier = "VMaxAbs", module = "Num", warn = false)
  public static Value vmaxabs(Value v) { double m = 0; for (double[] x : vec(v)) {
      double h = Math.hypot(x[0], x[1]); if (Double.isNaN(h)) h = Double.POSITIVE_INFINITY; m = Math.max(m, h); } return n(m, 0); }
  /** max_i |u_i - v_i|, infinite when lengths differ or anything is not finite */
  @TLAPlusOperator(identifier = "VDist", module = "Num", warn = false)
  public static Value vdist(Value u, Value v) { double[][] a = vec(u), b = vec(v);
    if (a.length != b.length) return n(Double.POSITIVE_INFINITY, 0); double m = 0;
    for (int i = 0; i < a.length; i++) { double h = Math.hypot(a[i][0] - b[i][0], a[i][1] - b[i][1]);
      if (!(h < Double.POSITIVE_INFINITY)) h = Double.POSITIVE_INFINITY; m = Math.max(m, h); }
    return n(m, 0); }
  @TLAPlusOperator(identifier = "PEval", module = "Num", warn = false)
  public static Value peval(Value p, Value z) { double[][] c = vec(p); double[] x = d(z), s = {0, 0};
    for (double[] k : c) s = add(mul(s, x), k); return n(s); }
  @TLAPlusOperator(identifier = "PMul", module = "Num", warn = false)
  public static Value pmul(Value p, Value q) { double[][] a = vec(p), b = vec(q);
    double[][] r = new double[a.length + b.length - 1][2];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < b.length; j++) r[i + j] = add(r[i + j], mul(a[i], b[j]));
    return mk(r); }
  @TLAPlusOperator(identifier = "VAdd", module = "Num", warn = false)
  public static Value vadd(Value u, Value v) { double[][] a = vec(u), b = vec(v), r = new double[a.length][];
    for (int i = 0; i < a.length; i++) r[i] = add(a[i], b[i]); return mk(r); }
  @TLAPlusOperator(identifier = "VScale", module = "Num", warn = false)
  public static Value vscale(Value s, Value v) { double[][] a = vec(v), r = new double[a.length][]; double[] x = d(s);
    for (int i = 0; i < a.length; i++) r[i] = mul(x, a[i]); return mk(r); }
  /** N-point DFT  X_k = sum_n x_n exp(sgn 2 pi i k n/N), straight from the definition */
  @TLAPlusOperator(identifier = "VDft", module = "Num", warn = false)
  public static Value vdft(Value v, Value sg) { double[][] x = vec(v); int N = x.length; double s = d(sg)[0];
    double[][] r = new double[N][]; 
    for (int k = 0; k < N; k++) { double[] t = {0, 0};
      for (int j = 0; j < N; j++) { double ph = s*2*Math.PI*((long) k*j % N)/N; t = add(t, mul(x[j], new double[]{Math.cos(ph), Math.sin(ph)})); }
      r[k] = t; }
    return mk(r); }
  // ----- matrices (sequences of rows)
  static double[][][] mm(double[][][] a, double[][][] b) {
    double[][][] r = new double[a.length][b[0].length][];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < b[0].length; j++) { double[] s = {0, 0};
      for (int k = 0; k < b.length; k++) s = add(s, mul(a[i][k], b[k][j])); r[i][j] = s; }
    return r; }
  @TLAPlusOperator(identifier = "MMul", module = "Num", warn = false)
  public static Value mmul(Value a, Value b) { return mkm(mm(mat(a), mat(b))); }
  @TLAPlusOperator(identifier = "MSolve", module = "Num", warn = false)
  public static Value msolve(Value a, Value b) { double[][][] x = mat(a); double[][] y = vec(b); int n = y.length;
    x = x.clone(); for (int i = 0; i < n; i++) { x[i] = x[i].clone(); } y = y.clone();
    for (int c = 0; c < n; c++) { int p = c; for (int i = c + 1; i < n; i++) if (Math.hypot(x[i][c][0], x[i][c][1]) > Math.hypot(x[p][c][0], x[p][c][1])) p = i;
      double[][] tr = x[c]; x[c] = x[p]; x[p] = tr; double[] tv = y[c]; y[c] = y[p]; y[p] = tv;
      for (int i = 0; i < n; i++) if (i != c) { double[] f = div(x[i][c], x[c][c]);
        for (int j = c; j < n; j++) x[i][j] = sub(x[i][j], mul(f, x[c][j]));
        y[i] = sub(y[i], mul(f, y[c])); } }
    double[][] r = new double[n][]; for (int i = 0; i < n; i++) r[i] = div(y[i], x[i][i]); return mk(r); }
  @TLAPlusOperator(identifier = "MAdd", module = "Num", warn = false)
  public static Value madd(Value a, Value b) { double[][][] x = mat(a), y = mat(b);
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] = add(x[i][j], y[i][j]); return mkm(x); }
  @TLAPlusOperator(identifier = "MScale", module = "Num", warn = false)
  public static Value mscale(Value s, Value a) { double[][][] x = mat(a); double[] k = d(s);
    for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] = mul(k, x[i][j]); return mkm(x); }
  @TLAPlusOperator(identifier = "MExp", module = "Num", warn = false)
  public static Value mexp(Value a) { double[][][] x = mat(a); int nn = x.length; double nrm = 0;
    for (double[][] row : x) { double s = 0; for (double[] e : row) s += Math.hypot(e[0], e[1]); nrm = Math.max(nrm, s); }
    int sq = 0; while (nrm > 0.25) { nrm /= 2; sq++; }
    double f = Math.pow(2, -sq);
    double[][][] r = new double[nn][nn][], t = new double[nn][nn][];
    for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) { x[i][j] = mul(x[i][j], new double[]{f, 0});
      r[i][j] = new double[]{i == j ? 1 : 0, 0}; t[i][j] = r[i][j]; }
    for (int k = 1; k <= 18; k++) { t = mm(t, x);
      for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) { t[i][j] = new double[]{t[i][j][0]/k, t[i][j][1]/k}; r[i][j] = add(r[i][j], t[i][j]); } }
    for (int k = 0; k < sq; k++) r = mm(r, r);
    return mkm(r); }

  /** forces a sequence to a tuple of values */
  @TLAPlusOperator(identifier = "Vec", module = "Num", warn = false)
  public static Value force(Value v) { Value t = v.toTuple(); if (t == null) throw new RuntimeException("Vec: not a sequence: " + v);
    TupleValue u = (TupleValue) t; Value[] e = new Value[u.elems.length]; 
    for (int i = 0; i < e.length; i++) { Value x = u.elems[i]; Value y = (x instanceof FcnLambdaValue) ? x.toTuple() : null; e[i] = y == null ? x : y; }
    return new TupleValue(e); }
  /** product of the matrices of a sequence, the last one leftmost */
  @TLAPlusOperator(identifier = "MProd", module = "Num", warn = false)
  public static Value mprod(Value v) { TupleValue t = (TupleValue) v.toTuple(); double[][][] p = mat(t.elems[0]);
    for (int i = 1; i < t.elems.length; i++) p = mm(mat(t.elems[i]), p); return mkm(p); }
  /** smallest |u_i - x|, infinite for an empty sequence */
  @TLAPlusOperator(identifier = "VNearest", module = "Num", warn = false)
  public static Value vnearest(Value u, Value x) { double[][] a = vec(u); double[] y = d(x); double m = Double.POSITIVE_INFINITY;
    for (double[] e : a) m = Math.min(m, Math.hypot(e[0] - y[0], e[1] - y[1])); return n(m, 0); }

  // ----- conversions between text and numbers
  @TLAPlusOperator(identifier = "NParse", module = "Num", warn = false)
  public static Value nparse(Value s) { String t = ((StringValue) s).val.toString().trim();
    if (t.isEmpty()) return new TupleValue(new Value[0]);
    String[] p = t.split(" +"); Value[] e = new Value[p.length];
    for (int i = 0; i < p.length; i++) e[i] = n(parse1(p[i])); return new TupleValue(e); }
  static String f(double x) { if (Double.isNaN(x)) return "nan"; if (Double.isInfinite(x)) return x > 0 ? "inf" : "-inf";
    if (x == Math.rint(x) && Math.abs(x) < 1e15 && !(x == 0 && 1/x < 0)) return Long.toString((long) x); return Double.toString(x); }
  @TLAPlusOperator(identifier = "NFmt", module = "Num", warn = false)
  public static Value nfmt(Value v) { StringBuilder b = new StringBuilder(); for (double[] x : vec(v)) {
      if (b.length() > 0) b.append(' '); b.append(f(x[0])).append(',').append(f(x[1])); }
    return new StringValue(b.toString()); }
  @TLAPlusOperator(identifier = "RFmt", module = "Num", warn = false)
  public static Value rfmt(Value v) { StringBuilder b = new StringBuilder(); for (double[] x : vec(v)) {
      if (b.length() > 0) b.append(' '); b.append(f(x[0])); }
    return new StringValue(b.toString()); }

  // ----- reproducible choices
  static long hash(Value k) { long h = 0x9E3779B97F4A7C15L; 
    String s = k.toString();
    for (int i = 0; i < s.length(); i++) { h ^= s.charAt(i); h *= 0x100000001b3L; h ^= h >>> 29; }
    h ^= h >>> 33; h *= 0xff51afd7ed558ccdL; h ^= h >>> 33; h *= 0xc4ceb9fe1a85ec53L; h ^= h >>> 33; return h; }
  @TLAPlusOperator(identifier = "RRand", module = "Num", warn = false)
  public static Value rrand(Value k) { return n((hash(k) >>> 11) * 0x1.0p-53, 0); }
  @TLAPlusOperator(identifier = "IRand", module = "Num", warn = false)
  public static Value irand(Value k, Value m) { return IntValue.gen((int) Long.remainderUnsigned(hash(k), ((IntValue) m).val)); }

  /** Conf!Guarded(x): x, or [evaluable |-> FALSE] when x has no value, because
   *  a response lacks a field or has data of a form the specification excludes. */
  @tlc2.overrides.Evaluation(definition = "Guarded", module = "Conf", warn = false)
  public static Value guarded(final tlc2.tool.impl.Tool tool, final tla2sany.semantic.ExprOrOpArgNode[] args, final tlc2.util.Context c,
      final tlc2.tool.TLCState s0, final tlc2.tool.TLCState s1, final int control, final tlc2.tool.coverage.CostModel cm) {
    try {
      Value v = (Value) tool.eval(args[0], c, s0, s1, control, cm); v.deepNormalize(); return v;
    } catch (RuntimeException e) {
      if (System.getenv("VERIF_VERBOSE") != null) System.out.println("Guarded: " + e.getMessage());
      return new RecordValue(new UniqueString[]{UniqueString.uniqueStringOf("evaluable")}, new Value[]{BoolValue.ValFalse}, true);
    }
  }
}
