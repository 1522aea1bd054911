import java.math.BigInteger;
import tlc2.value.impl.*;

/** Executable counterpart of FieldOps.tla: the same operators on native integers (small fields, model
 *  checking) and on decimal strings (the fields of the implementation, trace checking). */
public final class FieldOps {
  static BigInteger big(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
    throw new IllegalArgumentException("not a number: " + v);
  }
  /** Result in the representation that modulus p calls for. */
  static Value out(Value p, BigInteger r) {
    if (p instanceof IntValue) return IntValue.gen(r.intValueExact());
    return new StringValue(r.toString());
  }
  static boolean small(Value p) { return p instanceof IntValue; }

  public static Value FE(Value p, Value n) { return out(p, big(n).mod(big(p))); }
  public static Value FAdd(Value p, Value a, Value b) { return out(p, big(a).add(big(b)).mod(big(p))); }
  public static Value FSub(Value p, Value a, Value b) { return out(p, big(a).subtract(big(b)).mod(big(p))); }
  public static Value FNeg(Value p, Value a) { return out(p, big(a).negate().mod(big(p))); }
  public static Value FMul(Value p, Value a, Value b) { return out(p, big(a).multiply(big(b)).mod(big(p))); }
  public static Value FPow(Value p, Value a, Value n) { return out(p, big(a).modPow(big(n), big(p))); }
  public static Value FInv(Value p, Value a) {
    BigInteger q = big(p), x = big(a).mod(q);
    return out(p, x.signum() == 0 ? BigInteger.ZERO : x.modInverse(q));
  }
  public static Value FIsElem(Value p, Value a) {
    if (!(a instanceof IntValue) && !(a instanceof StringValue)) return BoolValue.ValFalse;
    if (small(p) != (a instanceof IntValue)) return BoolValue.ValFalse;
    BigInteger x = big(a);
    return x.signum() >= 0 && x.compareTo(big(p)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  /** Low 64 bits of the canonical representation, modulo a small positive integer. */
  public static Value FLow64Mod(Value p, Value a, Value m) {
    return IntValue.gen(big(a).mod(BigInteger.ONE.shiftLeft(64)).mod(big(m)).intValueExact());
  }
}
