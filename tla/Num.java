import tlc2.value.impl.*;

/** Scalar real arithmetic for the TLA+ module Num (numbers are strings). */
public class Num {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    return p(((StringValue) v).val.toString());
  }
  private static double p(String s) {
    switch (s) {
      case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
      case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
      case "nan": case "NaN": return Double.NaN;
    }
    return Double.parseDouble(s);
  }
  private static boolean isNum(String s) {
    if (s.isEmpty()) return false;
    char c = s.charAt(0);
    if (!(c == '-' || c == '+' || c == '.' || (c >= '0' && c <= '9') || s.equals("inf") || s.equals("nan") || s.equals("NaN") || s.equals("Infinity"))) return false;
    try { p(s); return true; } catch (NumberFormatException e) { return false; }
  }
  private static Value r(double x) {
    if (x == Math.rint(x) && Math.abs(x) < 1e15) {
      long n = (long) x;
      return new StringValue(Long.toString(n));
    }
    return new StringValue(Double.toString(x));
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Add(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value Sub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value Mul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value Div(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value NNeg(Value a) { return r(-d(a)); }
  public static Value Abs(Value a) { return r(Math.abs(d(a))); }
  public static Value Sqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value Sin(Value a) { return r(Math.sin(d(a))); }
  public static Value Cos(Value a) { return r(Math.cos(d(a))); }
  public static Value Tan(Value a) { return r(Math.tan(d(a))); }
  public static Value Asin(Value a) { return r(Math.asin(d(a))); }
  public static Value Acos(Value a) { return r(Math.acos(d(a))); }
  public static Value Atan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
  public static Value Exp(Value a) { return r(Math.exp(d(a))); }
  public static Value Log(Value a) { return r(Math.log(d(a))); }
  public static Value Pow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value Sinh(Value a) { return r(Math.sinh(d(a))); }
  public static Value Cosh(Value a) { return r(Math.cosh(d(a))); }
  public static Value Tanh(Value a) { return r(Math.tanh(d(a))); }
  public static Value Atanh(Value a) { double x = d(a); return r(0.5 * Math.log((1 + x) / (1 - x))); }
  public static Value Floor(Value a) { return r(Math.floor(d(a))); }
  public static Value Ceil(Value a) { return r(Math.ceil(d(a))); }
  public static Value Rint(Value a) { return r(Math.rint(d(a))); }
  public static Value Trunc(Value a) { double x = d(a); return r(x < 0 ? Math.ceil(x) : Math.floor(x)); }
  public static Value Fmod(Value a, Value c) { double x = d(a), y = d(c); return r(x - y * Math.floor(x / y)); }
  public static Value Min2(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value Max2(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value F32(Value a) { return r((double) (float) d(a)); }
  public static Value WrapInt(Value a, Value bits, Value signed) {
    double x = d(a); int n = ((IntValue) bits).val; boolean s = ((BoolValue) signed).val;
    double m = Math.pow(2, n); double y = x - m * Math.floor(x / m);
    if (s && y >= m / 2) y -= m;
    return r(y);
  }
  public static Value Lt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value Le(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value NEq(Value a, Value c) { double x = d(a), y = d(c); return b(x == y || (x != x && y != y)); }
  public static Value IsNum(Value a) { return b(a instanceof IntValue || isNum(((StringValue) a).val.toString())); }
  public static Value IsNan(Value a) { return b(Double.isNaN(d(a))); }
  public static Value IsInt(Value a) { double x = d(a); return b(x == Math.rint(x) && !Double.isInfinite(x)); }
  public static Value Close(Value a, Value c, Value rt, Value at) {
    if (a instanceof StringValue && c instanceof StringValue) {
      String s = ((StringValue) a).val.toString(), t = ((StringValue) c).val.toString();
      if (s.equals(t)) return BoolValue.ValTrue;
      if (!isNum(s) || !isNum(t)) return BoolValue.ValFalse;
    }
    double x = d(a), y = d(c);
    if (x == y || (x != x && y != y)) return BoolValue.ValTrue;
    if (x != x || y != y || Double.isInfinite(x) || Double.isInfinite(y)) return BoolValue.ValFalse;
    return b(Math.abs(x - y) <= d(at) + d(rt) * Math.max(Math.abs(x), Math.abs(y)));
  }
  public static Value N(Value i) { return r(((IntValue) i).val); }
  public static Value I(Value a) {
    double x = d(a);
    if (x != Math.rint(x) || Math.abs(x) > 2147483647.0) throw new RuntimeException("I(): not a 32-bit integer: " + x);
    return IntValue.gen((int) x);
  }
  public static Value NSum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    double acc = 0; for (int i = 0; i < t.elems.length; i++) acc += d(t.elems[i]);
    return r(acc);
  }
  // sum over <<kx, ky, re, im>> in tab of re cos(k.x) - im sin(k.x)
  public static Value NWave(Value tab, Value x, Value y) {
    TupleValue t = (TupleValue) tab.toTuple();
    double acc = 0, px = d(x), py = d(y);
    for (int i = 0; i < t.elems.length; i++) {
      TupleValue e = (TupleValue) t.elems[i].toTuple();
      double ph = d(e.elems[0]) * px + d(e.elems[1]) * py;
      acc += d(e.elems[2]) * Math.cos(ph) - d(e.elems[3]) * Math.sin(ph);
    }
    return r(acc);
  }
  // the same summed over the grid x, x+1, .. (nx of them) by y, y+1, .. (ny of them)
  public static Value NWaveSum(Value tab, Value x, Value nx, Value y, Value ny) {
    TupleValue t = (TupleValue) tab.toTuple();
    double acc = 0, px = d(x), py = d(y); int mx = (int) d(nx), my = (int) d(ny);
    for (int i = 0; i < t.elems.length; i++) {
      TupleValue e = (TupleValue) t.elems[i].toTuple();
      double kx = d(e.elems[0]), ky = d(e.elems[1]), cx = 0, sx = 0, cy = 0, sy = 0;
      for (int j = 0; j < mx; j++) { cx += Math.cos(kx * (px + j)); sx += Math.sin(kx * (px + j)); }
      for (int j = 0; j < my; j++) { cy += Math.cos(ky * (py + j)); sy += Math.sin(ky * (py + j)); }
      acc += d(e.elems[2]) * (cx * cy - sx * sy) - d(e.elems[3]) * (cx * sy + sx * cy);
    }
    return r(acc);
  }
  public static Value Xor64(Value a, Value c) { return r((double) (((long) d(a)) ^ ((long) d(c)))); }
  public static Value And64(Value a, Value c) { return r((double) (((long) d(a)) & ((long) d(c)))); }
  public static Value Or64(Value a, Value c) { return r((double) (((long) d(a)) | ((long) d(c)))); }
  public static Value Sinc(Value a) {
    double x = Math.PI * d(a); return r(Math.abs(x) < 1e-4 ? 1 - x * x / 6 : Math.sin(x) / x);
  }
  public static Value LGamma(Value a) { return r(lgamma(d(a))); }
  private static double lgamma(double x) {
    if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgamma(1 - x);
    x -= 1;
    double[] g = {0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313,
      -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7};
    double s = g[0];
    for (int i = 1; i < 9; i++) s += g[i] / (x + i);
    double t = x + 7.5;
    return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(s);
  }
  /** J1 by its integral representation (trapezoid rule: spectrally accurate). */
  public static Value BesselJ1(Value a) {
    double x = d(a); int n = 64 + 4 * (int) Math.ceil(Math.abs(x)); double acc = 0;
    for (int i = 0; i < n; i++) { double t = 2 * Math.PI * i / n; acc += Math.cos(t - x * Math.sin(t)); }
    return r(acc / n);
  }
  public static Value BesselJ0(Value a) {
    double x = d(a); int n = 64 + 4 * (int) Math.ceil(Math.abs(x)); double acc = 0;
    for (int i = 0; i < n; i++) { double t = 2 * Math.PI * i / n; acc += Math.cos(x * Math.sin(t)); }
    return r(acc / n);
  }
  /** sine integral: power series, or the continued fraction of E1(ix). */
  public static Value SinInt(Value a) {
    double x = d(a), t = Math.abs(x), si;
    if (t == 0) return r(0);
    if (t <= 4) {
      double term = t, sum = t;
      for (int k = 1; k < 60; k++) {
        term *= -t * t / ((2.0 * k) * (2.0 * k + 1));
        sum += term / (2.0 * k + 1);
      }
      si = sum;
    } else {
      double br = 1, bi = t, cr = 1e300, ci = 0, n = br * br + bi * bi, dr = br / n, di = -bi / n, hr = dr, hi = di;
      for (int k = 1; k < 2000; k++) {
        double m = -(double) k * k;
        br += 2;
        double er = m * dr + br, ei = m * di + bi;
        n = er * er + ei * ei; dr = er / n; di = -ei / n;
        n = cr * cr + ci * ci;
        double gr = m * cr / n, gi = -m * ci / n;
        if (k == 1) { gr = 0; gi = 0; }
        cr = br + gr; ci = bi + gi;
        double lr = cr * dr - ci * di, li = cr * di + ci * dr;
        double h2 = hr * lr - hi * li; hi = hr * li + hi * lr; hr = h2;
        if (Math.abs(lr - 1) + Math.abs(li) < 1e-16) break;
      }
      double c = Math.cos(t), s = -Math.sin(t);
      si = Math.PI / 2 + (c * hi + s * hr);
    }
    return r(x < 0 ? -si : si);
  }
  /** erf by series / continued fraction (double accuracy). */
  public static Value Erf(Value a) {
    double x = d(a), z = Math.abs(x), res;
    if (z < 3) {
      double term = z, sum = z; for (int k = 1; k < 200; k++) { term *= -z * z / k; sum += term / (2 * k + 1); }
      res = 2 / Math.sqrt(Math.PI) * sum;
    } else {
      double f = 0; for (int k = 200; k >= 1; k--) f = (k / 2.0) / (z + f);
      res = 1 - Math.exp(-z * z) / Math.sqrt(Math.PI) / (z + f);
    }
    return r(x < 0 ? -res : res);
  }
  /** K_nu(x), x > 0, by its integral representation (trapezoid rule). */
  public static Value BesselK(Value n, Value a) {
    double nu = Math.abs(d(n)), x = d(a), h = 0.02, acc = 0.5 * Math.exp(-x);
    for (int i = 1; i < 4000; i++) {
      double t = i * h, c = x * Math.cosh(t);
      double term = 0.5 * (Math.exp(nu * t - c) + Math.exp(-nu * t - c));
      acc += term; if (c > nu * t + 45 && i > 10) break;
    }
    return r(acc * h);
  }
}
