import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** Executable counterpart of GroupOps.tla. A group is an integer r (the additive group of exponents mod r,
 *  used for model checking) or one of the strings "G1", "G2" (the prime-order groups of BLS12-381, used for
 *  trace checking, with points written "x:y" / "x0,x1:y0,y1", or "inf"). */
public final class GroupOps {
  static final BigInteger Q = new BigInteger("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16);
  static final BigInteger R = new BigInteger("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16);
  static final String G1 = new BigInteger("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb", 16)
      + ":" + new BigInteger("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1", 16);
  static final String G2 = new BigInteger("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8", 16)
      + "," + new BigInteger("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e", 16)
      + ":" + new BigInteger("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801", 16)
      + "," + new BigInteger("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be", 16);

  /** Elements of F_q (one coordinate) or F_q[i]/(i^2+1) (two coordinates). */
  static BigInteger[] add(BigInteger[] a, BigInteger[] b) {
    BigInteger[] r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) { r[i] = a[i].add(b[i]); if (r[i].compareTo(Q) >= 0) r[i] = r[i].subtract(Q); }
    return r;
  }
  static BigInteger[] sub(BigInteger[] a, BigInteger[] b) {
    BigInteger[] r = new BigInteger[a.length];
    for (int i = 0; i < r.length; i++) { r[i] = a[i].subtract(b[i]); if (r[i].signum() < 0) r[i] = r[i].add(Q); }
    return r;
  }
  static BigInteger[] mul(BigInteger[] a, BigInteger[] b) {
    if (a.length == 1) return new BigInteger[] {a[0].multiply(b[0]).mod(Q)};
    BigInteger x = a[0].multiply(b[0]), y = a[1].multiply(b[1]);
    BigInteger z = a[0].add(a[1]).multiply(b[0].add(b[1]));
    return new BigInteger[] {x.subtract(y).mod(Q), z.subtract(x).subtract(y).mod(Q)};
  }
  static BigInteger[] inv(BigInteger[] a) {
    if (a.length == 1) return new BigInteger[] {a[0].modInverse(Q)};
    BigInteger n = a[0].multiply(a[0]).add(a[1].multiply(a[1])).mod(Q).modInverse(Q);
    return new BigInteger[] {a[0].multiply(n).mod(Q), a[1].negate().multiply(n).mod(Q)};
  }
  static boolean zero(BigInteger[] a) { for (BigInteger x : a) if (x.signum() != 0) return false; return true; }
  static boolean eq(BigInteger[] a, BigInteger[] b) { return java.util.Arrays.equals(a, b); }

  /** Jacobian point; z = 0 is the identity. */
  static final class Pt {
    final BigInteger[] x, y, z;
    Pt(BigInteger[] x, BigInteger[] y, BigInteger[] z) { this.x = x; this.y = y; this.z = z; }
  }
  static BigInteger[] konst(int d, int k) {
    BigInteger[] r = new BigInteger[d]; java.util.Arrays.fill(r, BigInteger.ZERO); r[0] = BigInteger.valueOf(k); return r;
  }
  static Pt id(int d) { return new Pt(konst(d, 1), konst(d, 1), konst(d, 0)); }
  static Pt dbl(Pt p) {
    if (zero(p.z) || zero(p.y)) return id(p.x.length);
    BigInteger[] a = mul(p.x, p.x), b = mul(p.y, p.y), c = mul(b, b);
    BigInteger[] t = add(p.x, b); BigInteger[] d = sub(sub(mul(t, t), a), c); d = add(d, d);
    BigInteger[] e = add(add(a, a), a), f = mul(e, e);
    BigInteger[] x3 = sub(f, add(d, d));
    BigInteger[] c8 = add(c, c); c8 = add(c8, c8); c8 = add(c8, c8);
    BigInteger[] y3 = sub(mul(e, sub(d, x3)), c8);
    BigInteger[] z3 = mul(p.y, p.z); z3 = add(z3, z3);
    return new Pt(x3, y3, z3);
  }
  static Pt add(Pt p, Pt q) {
    if (zero(p.z)) return q;
    if (zero(q.z)) return p;
    BigInteger[] z1 = mul(p.z, p.z), z2 = mul(q.z, q.z);
    BigInteger[] u1 = mul(p.x, z2), u2 = mul(q.x, z1);
    BigInteger[] s1 = mul(mul(p.y, q.z), z2), s2 = mul(mul(q.y, p.z), z1);
    if (eq(u1, u2)) return eq(s1, s2) ? dbl(p) : id(p.x.length);
    BigInteger[] h = sub(u2, u1), r = sub(s2, s1), h2 = mul(h, h), h3 = mul(h, h2), v = mul(u1, h2);
    BigInteger[] x3 = sub(sub(mul(r, r), h3), add(v, v));
    BigInteger[] y3 = sub(mul(r, sub(v, x3)), mul(s1, h3));
    return new Pt(x3, y3, mul(mul(p.z, q.z), h));
  }
  static Pt neg(Pt p) { return new Pt(p.x, sub(konst(p.y.length, 0), p.y), p.z); }
  static Pt mul(BigInteger k, Pt p) {
    k = k.mod(R);
    Pt[] tab = new Pt[16]; tab[0] = id(p.x.length);
    for (int i = 1; i < 16; i++) tab[i] = add(tab[i - 1], p);
    Pt r = id(p.x.length);
    for (int i = (k.bitLength() + 3) / 4 - 1; i >= 0; i--) {
      r = dbl(dbl(dbl(dbl(r))));
      int w = k.shiftRight(4 * i).intValue() & 15;
      if (w != 0) r = add(r, tab[w]);
    }
    return r;
  }
  static BigInteger[] coord(String s) {
    String[] c = s.split(",");
    BigInteger[] r = new BigInteger[c.length];
    for (int i = 0; i < r.length; i++) r[i] = new BigInteger(c[i]);
    return r;
  }
  static int dim(Value g) { return str(g).equals("G2") ? 2 : 1; }
  static String str(Value v) { return ((StringValue) v).val.toString(); }
  static Pt parse(int d, String s) {
    if (s.equals("inf")) return id(d);
    String[] c = s.split(":");
    return new Pt(coord(c[0]), coord(c[1]), konst(d, 1));
  }
  static String show(Pt p) {
    if (zero(p.z)) return "inf";
    BigInteger[] zi = inv(p.z), z2 = mul(zi, zi), x = mul(p.x, z2), y = mul(p.y, mul(z2, zi));
    return cs(x) + ":" + cs(y);
  }
  static String cs(BigInteger[] a) { return a.length == 1 ? a[0].toString() : a[0] + "," + a[1]; }
  static Value sv(String s) { return new StringValue(s); }
  static boolean exp(Value g) { return g instanceof IntValue; }

  static final ConcurrentHashMap<String, Pt> genTab = new ConcurrentHashMap<>();
  static final ConcurrentHashMap<String, String> mulCache = new ConcurrentHashMap<>();

  /** Powers-of-16 table of the generators, since most products are with a generator. */
  static Pt[][] table(String g) {
    return tabs.computeIfAbsent(g, k -> {
      Pt p = parse(k.equals("G2") ? 2 : 1, k.equals("G2") ? G2 : G1);
      Pt[][] t = new Pt[64][16];
      for (int i = 0; i < 64; i++) {
        t[i][0] = id(p.x.length);
        for (int j = 1; j < 16; j++) t[i][j] = add(t[i][j - 1], p);
        p = add(t[i][15], p);
      }
      return t;
    });
  }
  static final ConcurrentHashMap<String, Pt[][]> tabs = new ConcurrentHashMap<>();
  static Pt mulGen(String g, BigInteger k) {
    Pt[][] t = table(g); k = k.mod(R);
    Pt r = id(g.equals("G2") ? 2 : 1);
    for (int i = 0; i < 64; i++) { int w = k.shiftRight(4 * i).intValue() & 15; if (w != 0) r = add(r, t[i][w]); }
    return r;
  }

  public static Value GOrder(Value g) { return exp(g) ? g : sv(R.toString()); }
  public static Value GZero(Value g) { return exp(g) ? IntValue.gen(0) : sv("inf"); }
  public static Value GGen(Value g) { return exp(g) ? IntValue.gen(1) : sv(dim(g) == 2 ? G2 : G1); }
  public static Value GAdd(Value g, Value a, Value b) {
    if (exp(g)) return FieldOps.FAdd(g, a, b);
    return sv(show(add(parse(dim(g), str(a)), parse(dim(g), str(b)))));
  }
  public static Value GNeg(Value g, Value a) {
    if (exp(g)) return FieldOps.FNeg(g, a);
    return sv(show(neg(parse(dim(g), str(a)))));
  }
  public static Value GMul(Value g, Value k, Value a) {
    if (exp(g)) return FieldOps.FMul(g, k, a);
    String s = str(a);
    if (s.equals(dim(g) == 2 ? G2 : G1)) return sv(show(mulGen(str(g), FieldOps.big(k))));
    return sv(show(mul(FieldOps.big(k), parse(dim(g), s))));
  }
  /** Sum of ks[i] * as[i]. */
  public static Value GMsm(Value g, Value ks, Value as) {
    BigInteger[] k = PolyOps.seq(ks);
    Value[] a = ((TupleValue) as.toTuple()).elems;
    if (k.length != a.length) throw new IllegalArgumentException("GMsm: lengths differ");
    if (exp(g)) {
      BigInteger r = BigInteger.ZERO;
      for (int i = 0; i < k.length; i++) r = r.add(k[i].multiply(FieldOps.big(a[i])));
      return FieldOps.out(g, r.mod(FieldOps.big(g)));
    }
    Pt r = id(dim(g));
    String gen = dim(g) == 2 ? G2 : G1;
    for (int i = 0; i < k.length; i++) {
      String s = str(a[i]);
      r = add(r, s.equals(gen) ? mulGen(str(g), k[i]) : mul(k[i], parse(dim(g), s)));
    }
    return sv(show(r));
  }
  /** On the curve and in the subgroup of prime order. */
  public static Value GIsElem(Value g, Value a) {
    if (exp(g)) return FieldOps.FIsElem(g, a);
    if (!(a instanceof StringValue)) return BoolValue.ValFalse;
    Pt p;
    try { p = parse(dim(g), str(a)); } catch (RuntimeException e) { return BoolValue.ValFalse; }
    if (zero(p.z)) return BoolValue.ValTrue;
    BigInteger[] b = dim(g) == 2 ? new BigInteger[] {BigInteger.valueOf(4), BigInteger.valueOf(4)} : konst(1, 4);
    if (!eq(mul(p.y, p.y), add(mul(mul(p.x, p.x), p.x), b))) return BoolValue.ValFalse;
    Pt q = add(mul(R.subtract(BigInteger.ONE), p), p);
    return zero(q.z) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
