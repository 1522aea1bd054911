import java.math.BigInteger;
import tlc2.value.impl.*;

/** Executable counterpart of PolyOps.tla. Polynomials are tuples of coefficients, lowest first. */
public final class PolyOps {
  static BigInteger[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new IllegalArgumentException("not a sequence: " + v);
    BigInteger[] r = new BigInteger[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = FieldOps.big(t.elems[i]);
    return r;
  }
  static Value tuple(Value p, BigInteger[] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < r.length; i++) r[i] = FieldOps.out(p, a[i]);
    return new TupleValue(r);
  }
  static int n(Value v) { return ((IntValue) v).val; }
  static BigInteger[] trim(BigInteger[] a) {
    int k = a.length;
    while (k > 0 && a[k - 1].signum() == 0) k--;
    return k == a.length ? a : java.util.Arrays.copyOf(a, k);
  }
  static BigInteger eval(BigInteger q, BigInteger[] a, BigInteger x) {
    BigInteger r = BigInteger.ZERO;
    for (int i = a.length - 1; i >= 0; i--) r = r.multiply(x).add(a[i]).mod(q);
    return r;
  }
  static BigInteger get(BigInteger[] a, int i) { return i < a.length ? a[i] : BigInteger.ZERO; }

  public static Value PTrim(Value p, Value f) { return tuple(p, trim(seq(f))); }
  public static Value PEval(Value p, Value f, Value x) {
    BigInteger q = FieldOps.big(p);
    return FieldOps.out(p, eval(q, seq(f), FieldOps.big(x)));
  }
  public static Value PAdd(Value p, Value f, Value g) {
    BigInteger q = FieldOps.big(p); BigInteger[] a = seq(f), b = seq(g), r = new BigInteger[Math.max(a.length, b.length)];
    for (int i = 0; i < r.length; i++) r[i] = get(a, i).add(get(b, i)).mod(q);
    return tuple(p, trim(r));
  }
  public static Value PScale(Value p, Value c, Value f) {
    BigInteger q = FieldOps.big(p), k = FieldOps.big(c); BigInteger[] a = seq(f), r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) r[i] = a[i].multiply(k).mod(q);
    return tuple(p, trim(r));
  }
  public static Value PMul(Value p, Value f, Value g) {
    BigInteger q = FieldOps.big(p); BigInteger[] a = seq(f), b = seq(g);
    if (a.length == 0 || b.length == 0) return TupleValue.EmptyTuple;
    BigInteger[] r = new BigInteger[a.length + b.length - 1];
    java.util.Arrays.fill(r, BigInteger.ZERO);
    for (int i = 0; i < a.length; i++) if (a[i].signum() != 0)
      for (int j = 0; j < b.length; j++) r[i + j] = r[i + j].add(a[i].multiply(b[j]));
    for (int i = 0; i < r.length; i++) r[i] = r[i].mod(q);
    return tuple(p, trim(r));
  }
  /** (f - f(z)) / (X - z) by synthetic division. */
  public static Value PQuotient(Value p, Value f, Value z) {
    BigInteger q = FieldOps.big(p), x = FieldOps.big(z); BigInteger[] a = seq(f);
    if (a.length <= 1) return TupleValue.EmptyTuple;
    BigInteger[] r = new BigInteger[a.length - 1];
    BigInteger c = BigInteger.ZERO;
    for (int i = a.length - 1; i >= 1; i--) { c = c.multiply(x).add(a[i]).mod(q); r[i - 1] = c; }
    return tuple(p, trim(r));
  }
  /** Values of f at shift * w^i for i = 0..n-1. */
  public static Value PEvalCoset(Value p, Value f, Value shift, Value w, Value n) {
    BigInteger q = FieldOps.big(p), g = FieldOps.big(w), x = FieldOps.big(shift).mod(q); BigInteger[] a = seq(f);
    int m = n(n);
    if ((m & (m - 1)) == 0 && m >= 1 && a.length <= m) {
      BigInteger[] b = new BigInteger[m]; BigInteger k = BigInteger.ONE;
      for (int i = 0; i < m; i++) { b[i] = get(a, i).multiply(k).mod(q); k = k.multiply(x).mod(q); }
      if (g.modPow(BigInteger.valueOf(m), q).equals(BigInteger.ONE.mod(q))) return tuple(p, dft(q, b, g));
    }
    BigInteger[] r = new BigInteger[m];
    for (int i = 0; i < m; i++) { r[i] = eval(q, a, x); x = x.multiply(g).mod(q); }
    return tuple(p, r);
  }
  static BigInteger[] dft(BigInteger q, BigInteger[] a, BigInteger w) {
    int m = a.length; if (m == 1) return a;
    BigInteger[] e = new BigInteger[m / 2], o = new BigInteger[m / 2];
    for (int i = 0; i < m / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
    BigInteger w2 = w.multiply(w).mod(q);
    e = dft(q, e, w2); o = dft(q, o, w2);
    BigInteger[] r = new BigInteger[m]; BigInteger k = BigInteger.ONE;
    for (int i = 0; i < m; i++) {   // w may have order below m: index modulo m/2 stays right since w2^(m/2)=1
      r[i] = e[i % (m / 2)].add(k.multiply(o[i % (m / 2)])).mod(q); k = k.multiply(w).mod(q);
    }
    return r;
  }
  /** The polynomial of degree < n that takes the given values at w^i. */
  public static Value PInterp(Value p, Value vals, Value w) {
    BigInteger q = FieldOps.big(p), g = FieldOps.big(w); BigInteger[] v = seq(vals);
    int m = v.length;
    BigInteger ninv = BigInteger.valueOf(m).modInverse(q);
    BigInteger[] r;
    BigInteger gi = g.modInverse(q);
    if ((m & (m - 1)) == 0) r = dft(q, v, gi);
    else {
      r = new BigInteger[m]; BigInteger x = BigInteger.ONE;
      for (int i = 0; i < m; i++) { r[i] = eval(q, v, x); x = x.multiply(gi).mod(q); }
    }
    for (int i = 0; i < m; i++) r[i] = r[i].multiply(ninv).mod(q);
    return tuple(p, trim(r));
  }
  /** Quotient and remainder by X^n - 1. */
  public static Value PDivVanish(Value p, Value f, Value n) {
    BigInteger q = FieldOps.big(p); BigInteger[] a = seq(f).clone(); int m = n(n);
    BigInteger[] d = new BigInteger[Math.max(0, a.length - m)];
    for (int i = a.length - 1; i >= m; i--) { d[i - m] = a[i].mod(q); a[i - m] = a[i - m].add(a[i]).mod(q); }
    BigInteger[] rem = java.util.Arrays.copyOf(a, Math.min(m, a.length));
    return new TupleValue(new Value[] {tuple(p, trim(d)), tuple(p, trim(rem))});
  }
  public static Value PFold(Value p, Value f, Value c) {
    BigInteger q = FieldOps.big(p), k = FieldOps.big(c); BigInteger[] a = seq(f), r = new BigInteger[(a.length + 1) / 2];
    for (int i = 0; i < r.length; i++) r[i] = get(a, 2 * i).add(k.multiply(get(a, 2 * i + 1))).mod(q);
    return tuple(p, trim(r));
  }
}
