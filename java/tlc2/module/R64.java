package tlc2.module;

import tlc2.value.impl.*;
import tlc2.value.Values;

/**
 * IEEE-754 double arithmetic for TLC. A real is the tuple <<hi, lo>> of the two
 * 32-bit halves of the double's bit pattern, exactly as the harness logs it.
 * Every operator is declared in spec/R64.tla.
 */
public class R64 {
  private static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 2) {
      throw new RuntimeException("R64: not a real: " + v);
    }
    long hi = ((IntValue) t.elems[0]).val;
    long lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }

  private static Value v(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }

  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RS(Value s) { return v(Double.parseDouble(((StringValue) s).val.toString())); }
  public static Value RI(Value n) { return v(((IntValue) n).val); }
  public static Value RQ(Value n, Value m) {
    return v(((double) ((IntValue) n).val) / ((double) ((IntValue) m).val));
  }
  public static Value RAdd(Value x, Value y) { return v(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return v(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return v(d(x) * d(y)); }
  public static Value RDiv(Value x, Value y) { return v(d(x) / d(y)); }
  public static Value RPow(Value x, Value y) { return v(Math.pow(d(x), d(y))); }
  public static Value RMax(Value x, Value y) { return v(Math.max(d(x), d(y))); }
  public static Value RMin(Value x, Value y) { return v(Math.min(d(x), d(y))); }
  public static Value RAtan2(Value y, Value x) { return v(Math.atan2(d(y), d(x))); }
  public static Value RHypot(Value x, Value y) { return v(Math.hypot(d(x), d(y))); }
  public static Value RNeg(Value x) { return v(-d(x)); }
  public static Value RAbs(Value x) { return v(Math.abs(d(x))); }
  public static Value RSqrt(Value x) { return v(Math.sqrt(d(x))); }
  public static Value RSin(Value x) { return v(Math.sin(d(x))); }
  public static Value RCos(Value x) { return v(Math.cos(d(x))); }
  public static Value RTan(Value x) { return v(Math.tan(d(x))); }
  public static Value RAsin(Value x) { return v(Math.asin(d(x))); }
  public static Value RAcos(Value x) { return v(Math.acos(d(x))); }
  public static Value RAtan(Value x) { return v(Math.atan(d(x))); }
  public static Value RSinh(Value x) { return v(Math.sinh(d(x))); }
  public static Value RCosh(Value x) { return v(Math.cosh(d(x))); }
  public static Value RTanh(Value x) { return v(Math.tanh(d(x))); }
  public static Value RAsinh(Value x) {
    double a = Math.abs(d(x));
    double r = Math.log1p(a + a * a / (1 + Math.sqrt(1 + a * a)));
    return v(Math.copySign(r, d(x)));
  }
  public static Value RExp(Value x) { return v(Math.exp(d(x))); }
  public static Value RLog(Value x) { return v(Math.log(d(x))); }
  public static Value RFloor(Value x) { return v(Math.floor(d(x))); }
  /** Round half away from zero, as C round(). */
  public static Value RRound(Value x) {
    double a = d(x);
    if (Double.isNaN(a) || Double.isInfinite(a) || Math.abs(a) >= 4503599627370496.0) return v(a);
    double r = Math.floor(Math.abs(a));
    if (Math.abs(a) - r >= 0.5) r += 1;
    return v(Math.copySign(r, a));
  }
  public static Value RToInt(Value x) { return IntValue.gen((int) Math.floor(d(x))); }

  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value RIsFin(Value x) { double a = d(x); return b(!Double.isNaN(a) && !Double.isInfinite(a)); }
  /** |x-y| <= abs + rel*max(|x|,|y|); two NaN, or two equal infinities, are close. */
  public static Value RClose(Value x, Value y, Value rel, Value abs) {
    double a = d(x), c = d(y);
    if (Double.isNaN(a) || Double.isNaN(c)) return b(Double.isNaN(a) && Double.isNaN(c));
    if (a == c) return b(true);
    if (Double.isInfinite(a) || Double.isInfinite(c)) return b(false);
    return b(Math.abs(a - c) <= d(abs) + d(rel) * Math.max(Math.abs(a), Math.abs(c)));
  }
  public static Value RSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    double r = 0;
    for (Value e : t.elems) r += d(e);
    return v(r);
  }
  /** sum of coef[i] * x^(i-1) by Horner. */
  public static Value RPoly(Value coef, Value x) {
    TupleValue t = (TupleValue) coef.toTuple();
    double r = 0, a = d(x);
    for (int i = t.elems.length - 1; i >= 0; i--) r = r * a + d(t.elems[i]);
    return v(r);
  }
  public static Value RShow(Value x) {
    Value t = x.toTuple();
    return new StringValue(t == null ? x.toString() : Double.toString(d(x)));
  }
}
