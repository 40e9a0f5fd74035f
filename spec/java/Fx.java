import tlc2.value.impl.*;
import java.math.BigInteger;
import java.util.Arrays;

/**
 * BigInteger versions of the operators of spec/Fx.tla.  TLC replaces the
 * operators of module Fx by the public static methods of this class that have
 * the same name.  spec/FxTest.tla compares the two on random arguments.
 */
public class Fx {
  static final BigInteger B = BigInteger.valueOf(10000), S = B.pow(6), TINY = BigInteger.valueOf(1000000);
  static final IntValue[] SMALL = new IntValue[10001];
  static { for (int i = 0; i <= 10000; i++) SMALL[i] = IntValue.gen(i); }

  private static Value[] el(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Fx: not a sequence: " + v);
    return t.elems;
  }
  private static BigInteger num(Value v) {
    Value[] e = el(v);
    int s = ((IntValue) e[0]).val;
    if (s == 0) return BigInteger.ZERO;
    long hi = 0; BigInteger r = BigInteger.ZERO;
    int i = e.length - 1;
    while (i >= 1) {
      long acc = 0, mul = 1; int k = 0;
      while (i >= 1 && k < 4) { acc = acc * 10000 + ((IntValue) e[i]).val; mul *= 10000; i--; k++; }
      r = (r.signum() == 0) ? BigInteger.valueOf(acc) : r.multiply(BigInteger.valueOf(mul)).add(BigInteger.valueOf(acc));
    }
    return s < 0 ? r.negate() : r;
  }
  private static final BigInteger B4 = BigInteger.valueOf(10000L * 10000L * 10000L * 10000L);
  private static Value val(BigInteger x) {
    int s = x.signum();
    if (s == 0) return new TupleValue(new Value[] { IntValue.gen(0) });
    x = x.abs();
    Value[] buf = new Value[2 + x.bitLength() / 13 + 4];
    int n = 0; buf[n++] = IntValue.gen(s);
    while (x.signum() != 0) {
      BigInteger[] qr = x.divideAndRemainder(B4);
      long r = qr[1].longValue(); x = qr[0];
      for (int k = 0; k < 4; k++) { if (n >= buf.length) buf = Arrays.copyOf(buf, n + 8); buf[n++] = SMALL[(int) (r % 10000)]; r /= 10000; }
    }
    while (((IntValue) buf[n - 1]).val == 0) n--;
    return new TupleValue(Arrays.copyOf(buf, n));
  }
  private static BigInteger[] vec(Value v) { Value[] e = el(v); BigInteger[] r = new BigInteger[e.length]; for (int i = 0; i < e.length; i++) r[i] = num(e[i]); return r; }
  private static BigInteger[][] mat(Value v) { Value[] e = el(v); BigInteger[][] r = new BigInteger[e.length][]; for (int i = 0; i < e.length; i++) r[i] = vec(e[i]); return r; }
  private static Value vval(BigInteger[] x) { Value[] r = new Value[x.length]; for (int i = 0; i < x.length; i++) r[i] = val(x[i]); return new TupleValue(r); }
  private static Value mval(BigInteger[][] x) { Value[] r = new Value[x.length]; for (int i = 0; i < x.length; i++) r[i] = vval(x[i]); return new TupleValue(r); }

  // truncated product / quotient (BigInteger.divide truncates toward zero)
  private static BigInteger mul(BigInteger a, BigInteger b) { return a.multiply(b).divide(S); }
  private static BigInteger div(BigInteger a, BigInteger b) { return a.multiply(S).divide(b); }
  private static BigInteger dot(BigInteger[] a, BigInteger[] b) { BigInteger r = BigInteger.ZERO; for (int i = 0; i < a.length; i++) r = r.add(mul(a[i], b[i])); return r; }

  public static Value FAdd(Value a, Value b) { return val(num(a).add(num(b))); }
  public static Value FSub(Value a, Value b) { return val(num(a).subtract(num(b))); }
  public static Value FMul(Value a, Value b) { return val(mul(num(a), num(b))); }
  public static Value FDiv(Value a, Value b) { return val(div(num(a), num(b))); }
  public static Value FSqrt(Value a) { return val(num(a).multiply(S).sqrt()); }
  public static Value FCmp(Value a, Value b) { return IntValue.gen(num(a).compareTo(num(b))); }
  public static Value FLe(Value a, Value b) { return num(a).compareTo(num(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FLt(Value a, Value b) { return num(a).compareTo(num(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FRat(Value p, Value q) { return val(div(BigInteger.valueOf(((IntValue) p).val).multiply(S), BigInteger.valueOf(((IntValue) q).val).multiply(S))); }
  public static Value FInt(Value n) { return val(BigInteger.valueOf(((IntValue) n).val).multiply(S)); }
  private static BigInteger LN2 = null;
  private static BigInteger lnm(BigInteger m) {
    BigInteger z = div(m.subtract(S), m.add(S)), z2 = mul(z, z), p = z, acc = BigInteger.ZERO; long k = 1;
    while (p.signum() != 0) { acc = acc.add(div(p, BigInteger.valueOf(k).multiply(S))); p = mul(p, z2); k += 2; }
    return mul(S.multiply(BigInteger.valueOf(2)), acc);
  }
  public static Value FLn(Value v) {
    BigInteger two = S.multiply(BigInteger.valueOf(2)), a = num(v), hi = div(S.multiply(BigInteger.valueOf(3)), two), lo = div(S.multiply(BigInteger.valueOf(3)), S.multiply(BigInteger.valueOf(4)));
    synchronized (Fx.class) { if (LN2 == null) LN2 = mul(two, lnm(two.multiply(S).sqrt())); }
    int k = 0;
    while (hi.compareTo(a) <= 0) { a = div(a, two); k++; }
    while (a.compareTo(lo) < 0) { a = mul(a, two); k--; }
    return val(mul(BigInteger.valueOf(k).multiply(S), LN2).add(lnm(a)));
  }
  private static BigInteger expp(BigInteger x) {
    BigInteger two = S.multiply(BigInteger.valueOf(2));
    if (x.compareTo(div(S, S.multiply(BigInteger.valueOf(16)))) < 0) {
      BigInteger p = S, acc = BigInteger.ZERO; long k = 1;
      while (p.signum() != 0) { acc = acc.add(p); p = div(mul(p, x), BigInteger.valueOf(k).multiply(S)); k++; }
      return acc;
    }
    BigInteger h = expp(div(x, two));
    return mul(h, h);
  }
  public static Value FExp(Value v) { BigInteger a = num(v); return val(a.signum() < 0 ? div(S, expp(a.negate())) : expp(a)); }
  public static Value FForce(Value v) {
    Value t = v instanceof TupleValue ? v : (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) ? v.toTuple() : null;
    if (t == null) return v;
    Value[] e = ((TupleValue) t).elems;
    boolean flat = true;
    for (Value x : e) if (!(x instanceof IntValue)) { flat = false; break; }
    if (flat) return t;
    Value[] r = new Value[e.length];
    for (int i = 0; i < e.length; i++) r[i] = FForce(e[i]);
    return new TupleValue(r);
  }
  public static Value FSum(Value v) { BigInteger r = BigInteger.ZERO; for (BigInteger x : vec(v)) r = r.add(x); return val(r); }
  public static Value FDot(Value u, Value v) { return val(dot(vec(u), vec(v))); }
  public static Value FVAdd(Value u, Value v) { BigInteger[] a = vec(u), b = vec(v); for (int i = 0; i < a.length; i++) a[i] = a[i].add(b[i]); return vval(a); }
  public static Value FVSub(Value u, Value v) { BigInteger[] a = vec(u), b = vec(v); for (int i = 0; i < a.length; i++) a[i] = a[i].subtract(b[i]); return vval(a); }
  public static Value FScale(Value k, Value v) { BigInteger c = num(k); BigInteger[] a = vec(v); for (int i = 0; i < a.length; i++) a[i] = mul(c, a[i]); return vval(a); }
  public static Value FMatVec(Value M, Value v) { BigInteger[][] m = mat(M); BigInteger[] x = vec(v), r = new BigInteger[m.length]; for (int i = 0; i < m.length; i++) r[i] = dot(m[i], x); return vval(r); }
  public static Value FQuad(Value u, Value M, Value v) { BigInteger[][] m = mat(M); BigInteger[] x = vec(v), y = vec(u), r = new BigInteger[m.length]; for (int i = 0; i < m.length; i++) r[i] = dot(m[i], x); return val(dot(y, r)); }
  public static Value FMatMul(Value A, Value C) {
    BigInteger[][] a = mat(A), c = mat(C); int q = c[0].length;
    BigInteger[][] r = new BigInteger[a.length][q];
    for (int j = 0; j < q; j++) { BigInteger[] col = new BigInteger[c.length]; for (int k = 0; k < c.length; k++) col[k] = c[k][j]; for (int i = 0; i < a.length; i++) r[i][j] = dot(col, a[i]); }
    return mval(r);
  }
  public static Value FSort(Value v) { BigInteger[] a = vec(v); Arrays.sort(a); return vval(a); }
  public static Value FNorm1(Value v) { BigInteger r = BigInteger.ZERO; for (BigInteger x : vec(v)) r = r.add(x.abs()); return val(r); }
  public static Value FMaxAbs(Value v) { BigInteger r = BigInteger.ZERO; for (BigInteger x : vec(v)) r = r.max(x.abs()); return val(r); }
  public static Value FSolve(Value A, Value C) {
    BigInteger[][] a = mat(A), c = mat(C); int n = a.length, q = c[0].length, w = n + q;
    BigInteger[][] M = new BigInteger[n][w];
    for (int i = 0; i < n; i++) { System.arraycopy(a[i], 0, M[i], 0, n); System.arraycopy(c[i], 0, M[i], n, q); }
    for (int col = 0; col < n; col++) {
      int p = col;
      for (int i = col + 1; i < n; i++) if (M[i][col].abs().compareTo(M[p][col].abs()) > 0) p = i;
      BigInteger[] t = M[p]; M[p] = M[col]; M[col] = t;
      BigInteger piv = M[col][col];
      if (piv.abs().compareTo(TINY) <= 0) return new TupleValue(new Value[0]);
      for (int j = 0; j < w; j++) M[col][j] = div(M[col][j], piv);
      for (int i = 0; i < n; i++) if (i != col) { BigInteger f = M[i][col]; for (int j = 0; j < w; j++) M[i][j] = M[i][j].subtract(mul(f, M[col][j])); }
    }
    BigInteger[][] r = new BigInteger[n][];
    for (int i = 0; i < n; i++) r[i] = Arrays.copyOfRange(M[i], n, w);
    return mval(r);
  }
}
