// TLC override of module Floats (../Floats.tla).  TLC integers are 32-bit, so an
// IEEE double is the pair <<hi, lo>> of the two halves of its bit pattern.
// Only primitive arithmetic and special functions are here (the trusted base,
// cross-checked against scipy by harness/selftest.py); every rule of
// climate_indices is written in TLA+.
import tlc2.value.impl.*;
import util.UniqueString;
import java.util.Arrays;

public final class Floats {
  static double d(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL));
  }
  static Value v(double x) {
    long b = Double.isNaN(x) ? 0x7ff8000000000000L : Double.doubleToRawLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] ds(Value s) {
    Value[] e = ((TupleValue) s.toTuple()).elems;
    double[] r = new double[e.length];
    for (int i = 0; i < r.length; i++) r[i] = d(e[i]);
    return r;
  }
  static Value vs(double[] s) {
    Value[] e = new Value[s.length];
    for (int i = 0; i < e.length; i++) e[i] = v(s[i]);
    return new TupleValue(e);
  }

  public static Value FAdd(Value a, Value b) { return v(d(a) + d(b)); }
  public static Value FSub(Value a, Value b) { return v(d(a) - d(b)); }
  public static Value FMul(Value a, Value b) { return v(d(a) * d(b)); }
  public static Value FDiv(Value a, Value b) { return v(d(a) / d(b)); }
  public static Value FNeg(Value a) { return v(-d(a)); }
  public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
  public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
  public static Value FExp(Value a) { return v(Math.exp(d(a))); }
  public static Value FLog(Value a) { return v(Math.log(d(a))); }
  public static Value FLog10(Value a) { return v(Math.log10(d(a))); }
  public static Value FPow(Value a, Value b) { return v(Math.pow(d(a), d(b))); }
  public static Value FSin(Value a) { return v(Math.sin(d(a))); }
  public static Value FCos(Value a) { return v(Math.cos(d(a))); }
  public static Value FTan(Value a) { return v(Math.tan(d(a))); }
  public static Value FAcos(Value a) { return v(Math.acos(d(a))); }
  public static Value FOfInt(Value a) { return v(((IntValue) a).val); }
  public static Value FDec(Value m, Value e) { return v(Double.parseDouble(((IntValue) m).val + "e-" + ((IntValue) e).val)); }
  public static Value FLgamma(Value a) { return v(lgamma(d(a))); }
  public static Value FGammaCdf(Value x, Value a) { return v(gammaP(d(a), d(x))); }
  public static Value FGammaSf(Value x, Value a) { return v(gammaQ(d(a), d(x))); }
  public static Value FNormCdf(Value x) { return v(normCdf(d(x))); }
  public static Value FNormPpf(Value p) { return v(ppnd16(d(p))); }
  // |a-b| <= t*max(1,|b|); NaN only matches NaN, an infinity only itself
  public static Value FClose(Value a, Value b, Value t) { return b(close(d(a), d(b), d(t))); }
  static boolean close(double x, double y, double t) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    return Math.abs(x - y) <= t * Math.max(1.0, Math.abs(y)) && !Double.isInfinite(x);
  }
  public static Value FSameSeq(Value a, Value b) { // same bits (one NaN)
    double[] x = ds(a), y = ds(b);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++)
      if (!(x[i] == y[i] || (Double.isNaN(x[i]) && Double.isNaN(y[i])))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value FCloseSeq(Value a, Value b, Value t) {
    double[] x = ds(a), y = ds(b);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], d(t))) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value FSum(Value s) { double r = 0; for (double x : ds(s)) r += x; return v(r); }
  public static Value FSumAbs(Value s) { double r = 0; for (double x : ds(s)) r += Math.abs(x); return v(r); }
  public static Value FSort(Value s) { double[] x = ds(s); Arrays.sort(x); return vs(x); }
  public static Value FMapAdd(Value s, Value t) { double[] x = ds(s), y = ds(t), r = new double[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i] + y[i]; return vs(r); }
  public static Value FStr(Value a) { return new StringValue(UniqueString.uniqueStringOf(Double.toString(d(a)))); }

  // ---- special functions ----
  static double stirling(double a) { // lgamma(a) - [(a-.5)ln a - a + .5 ln 2pi], a >= 15
    double i = 1 / a, j = i * i;
    return i * (1.0 / 12 - j * (1.0 / 360 - j * (1.0 / 1260 - j * (1.0 / 1680 - j * (1.0 / 1188 - j * 691.0 / 360360)))));
  }
  static double lgamma(double a) {
    if (Double.isNaN(a) || a <= 0) return Double.NaN;
    double p = 1;
    while (a < 15) { p *= a; a += 1; }
    return (a - 0.5) * Math.log(a) - a + 0.9189385332046727418 + stirling(a) - Math.log(p);
  }
  static double log1pmx(double u) { // log(1+u) - u
    if (Math.abs(u) > 0.3) return Math.log1p(u) - u;
    double s = 0, p = u;
    for (int k = 2; k < 200; k++) { p *= -u; double t = p / k; s += t; if (Math.abs(t) < 1e-19 * Math.abs(s)) break; }
    return s;
  }
  static double prefix(double a, double x) { // x^a e^-x / Gamma(a+1)
    if (a < 15) return Math.exp(a * Math.log(x) - x - lgamma(a + 1));
    return Math.exp(a * log1pmx((x - a) / a) - stirling(a)) / Math.sqrt(2 * Math.PI * a);
  }
  static double gammaP(double a, double x) {
    if (Double.isNaN(a) || Double.isNaN(x) || a <= 0 || Double.isInfinite(a)) return Double.NaN;
    if (x <= 0) return 0;
    if (Double.isInfinite(x)) return 1;
    if (a > 1e7) return edgeworth(a, x);
    return x < a + 1 ? series(a, x) : 1 - cf(a, x);
  }
  static double gammaQ(double a, double x) {
    if (Double.isNaN(a) || Double.isNaN(x) || a <= 0 || Double.isInfinite(a)) return Double.NaN;
    if (x <= 0) return 1;
    if (Double.isInfinite(x)) return 0;
    if (a > 1e7) return 1 - edgeworth(a, x);
    return x < a + 1 ? 1 - series(a, x) : cf(a, x);
  }
  static double edgeworth(double a, double x) { // large a: error of the order a^-1.5
    double r = Math.sqrt(a), z = (x - a) / r, y = z * z;
    if (z < -9) return 0;
    if (z > 9) return 1;
    double phi = Math.exp(-y / 2) / Math.sqrt(2 * Math.PI);
    double c = (y - 1) / (3 * r) + z * (y - 3) / (4 * a) + z * (y * y - 10 * y + 15) / (18 * a);
    return normCdf(z) - phi * c;
  }
  static double series(double a, double x) {
    double s = 1, t = 1;
    for (double n = a + 1; t > s * 1e-17 && n < a + 1e6; n += 1) { t *= x / n; s += t; }
    return prefix(a, x) * s;
  }
  static double cf(double a, double x) { // modified Lentz
    double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
    for (int i = 1; i < 1000000; i++) {
      double an = -i * (i - a);
      b += 2;
      d = an * d + b; if (Math.abs(d) < 1e-300) d = 1e-300;
      c = b + an / c; if (Math.abs(c) < 1e-300) c = 1e-300;
      d = 1 / d; double e = d * c; h *= e;
      if (Math.abs(e - 1) < 1e-16) break;
    }
    return prefix(a, x) * a * h;
  }
  static double normCdf(double x) {
    if (Double.isNaN(x)) return x;
    double q = gammaQ(0.5, x * x / 2) / 2;
    return x <= 0 ? q : 1 - q;
  }
  static double ppnd16(double p) { // Wichura, AS 241
    if (Double.isNaN(p) || p < 0 || p > 1) return Double.NaN;
    if (p == 0) return Double.NEGATIVE_INFINITY;
    if (p == 1) return Double.POSITIVE_INFINITY;
    double q = p - 0.5, r;
    if (Math.abs(q) <= 0.425) {
      r = 0.180625 - q * q;
      return q * (((((((r * 2509.0809287301226727 + 33430.575583588128105) * r + 67265.770927008700853) * r + 45921.953931549871457) * r + 13731.693765509461125) * r + 1971.5909503065514427) * r + 133.14166789178437745) * r + 3.387132872796366608)
        / (((((((r * 5226.495278852854561 + 28729.085735721942674) * r + 39307.89580009271061) * r + 21213.794301586595867) * r + 5394.1960214247511077) * r + 687.1870074920579083) * r + 42.313330701600911252) * r + 1.0);
    }
    r = q < 0 ? p : 1 - p;
    r = Math.sqrt(-Math.log(r));
    double x;
    if (r <= 5) {
      r -= 1.6;
      x = (((((((r * 7.7454501427834140764e-4 + .0227238449892691845833) * r + .24178072517745061177) * r + 1.27045825245236838258) * r + 3.64784832476320460504) * r + 5.7694972214606914055) * r + 4.6303378461565452959) * r + 1.42343711074968357734)
        / (((((((r * 1.05075007164441684324e-9 + 5.475938084995344946e-4) * r + .0151986665636164571966) * r + .14810397642748007459) * r + .68976733498510000455) * r + 1.6763848301838038494) * r + 2.05319162663775882187) * r + 1.0);
    } else {
      r -= 5;
      x = (((((((r * 2.01033439929228813265e-7 + 2.71155556874348757815e-5) * r + .0012426609473880784386) * r + .026532189526576123093) * r + .29656057182850489123) * r + 1.7848265399172913358) * r + 5.4637849111641143699) * r + 6.6579046435011037772)
        / (((((((r * 2.04426310338993978564e-15 + 1.4215117583164458887e-7) * r + 1.8463183175100546818e-5) * r + 7.868691311456132591e-4) * r + .0148753612908506148525) * r + .13692988092273580531) * r + .59983220655588793769) * r + 1.0);
    }
    return q < 0 ? -x : x;
  }

}
