import java.io.*;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC override of the module Floats (see spec/Floats.tla). */
public class Floats {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof BoolValue) return ((BoolValue) v).val ? 1.0 : 0.0;
    Value tv = v.toTuple();
    if (tv == null) throw new RuntimeException("not a float: " + v);
    TupleValue t = (TupleValue) tv;
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value f(double x) {
    if (x == 0.0) x = 0.0;
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    Value tv = v.toTuple();
    if (tv == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) tv).elems;
  }
  public static Value F(Value n) { return f(d(n)); }
  public static Value FRat(Value n, Value m) { return f(d(n) / d(m)); }
  public static Value FAdd(Value x, Value y) { return f(d(x) + d(y)); }
  public static Value FSub(Value x, Value y) { return f(d(x) - d(y)); }
  public static Value FMul(Value x, Value y) { return f(d(x) * d(y)); }
  public static Value FDiv(Value x, Value y) { return f(d(x) / d(y)); }
  public static Value FSDiv(Value x, Value y) { double q = d(y); return f(q == 0.0 ? 0.0 : d(x) / q); }
  public static Value FNeg(Value x) { return f(-d(x)); }
  public static Value FAbs(Value x) { return f(Math.abs(d(x))); }
  public static Value FSqrt(Value x) { return f(Math.sqrt(d(x))); }
  public static Value FPow(Value x, Value y) { return f(Math.pow(d(x), d(y))); }
  public static Value FExp(Value x) { return f(Math.exp(d(x))); }
  public static Value FLn(Value x) { return f(Math.log(d(x))); }
  public static Value FLog10(Value x) { return f(Math.log10(d(x))); }
  public static Value FCos(Value x) { return f(Math.cos(d(x))); }
  public static Value FSin(Value x) { return f(Math.sin(d(x))); }
  public static Value FAcos(Value x) { return f(Math.acos(d(x))); }
  public static Value FAsin(Value x) { return f(Math.asin(d(x))); }
  public static Value FEllipE(Value x, Value mm) {
    // composite Gauss-Legendre (5 points) on 200 panels
    double phi = d(x), m = d(mm);
    double[] t = {0, 0.5384693101056831, -0.5384693101056831, 0.906179845938664, -0.906179845938664};
    double[] w = {0.5688888888888889, 0.47862867049936647, 0.47862867049936647, 0.23692688505618908, 0.23692688505618908};
    int n = 200; double s = 0, hh = phi / n;
    for (int i = 0; i < n; i++) for (int k = 0; k < 5; k++) {
      double z = Math.sin(hh * (i + 0.5 + 0.5 * t[k]));
      s += w[k] * Math.sqrt(Math.max(0, 1 - m * z * z));
    }
    return f(s * hh / 2);
  }
  public static Value FMax(Value x, Value y) { return f(Math.max(d(x), d(y))); }
  public static Value FMin(Value x, Value y) { return f(Math.min(d(x), d(y))); }
  public static Value FSum(Value s) { double a = 0; for (Value v : seq(s)) a += d(v); return f(a); }
  public static Value FMaxOf(Value s) {
    double a = Double.NEGATIVE_INFINITY; for (Value v : seq(s)) a = Math.max(a, d(v)); return f(a);
  }
  public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value FGt(Value x, Value y) { return b(d(x) > d(y)); }
  public static Value FGe(Value x, Value y) { return b(d(x) >= d(y)); }
  public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value FFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
  public static Value FPi() { return f(Math.PI); }
  public static Value FInf() { return f(Double.POSITIVE_INFINITY); }
  public static Value FFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
  public static Value FClose(Value x, Value y, Value tol, Value scale, Value abs) {
    double e = Math.abs(d(x) - d(y));
    if (d(x) == d(y)) return b(true);
    return b(e <= d(tol) * Math.abs(d(scale)) + d(abs));
  }
  public static Value FBalanced(Value s, Value tol, Value abs) {
    double a = 0, m = 0;
    for (Value v : seq(s)) { double x = d(v); a += x; m = Math.max(m, Math.abs(x)); }
    return b(Math.abs(a) <= d(tol) * m + d(abs));
  }
  public static Value FImbalance(Value s) {
    double a = 0, m = 0;
    for (Value v : seq(s)) { double x = d(v); a += x; m = Math.max(m, Math.abs(x)); }
    return f(a == 0 ? 0 : Math.abs(a) / m);
  }
  /** rows: sequence of records with fields x (sequence of <<column, coefficient>>) and r (terms); n unknowns. */
  public static Value FSolve(Value rows, Value nn) {
    int n = ((IntValue) nn).val;
    Value[] rs = seq(rows);
    if (rs.length != n) throw new RuntimeException("FSolve: " + rs.length + " equations for " + n + " unknowns");
    double[][] a = new double[n][n + 1];
    for (int i = 0; i < n; i++) {
      RecordValue r = (RecordValue) rs[i].toRcd();
      for (Value t : seq(r.select(new StringValue("x")))) {
        Value[] e = seq(t);
        a[i][((IntValue) e[0]).val - 1] += d(e[1]);
      }
      for (Value t : seq(r.select(new StringValue("r")))) a[i][n] += d(t);
    }
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (Math.abs(a[i][c]) > Math.abs(a[p][c])) p = i;
      double[] t = a[p]; a[p] = a[c]; a[c] = t;
      for (int i = c + 1; i < n; i++) if (a[i][c] != 0) {
        double f = a[i][c] / a[c][c];
        for (int j = c; j <= n; j++) a[i][j] -= f * a[c][j];
      }
    }
    double[] x = new double[n]; Value[] v = new Value[n];
    for (int i = n - 1; i >= 0; i--) {
      double z = a[i][n];
      for (int j = i + 1; j < n; j++) z -= a[i][j] * x[j];
      x[i] = z / a[i][i]; v[i] = f(x[i]);
    }
    return new TupleValue(v);
  }
  public static Value FEnv(Value name) {
    String v = System.getenv(((StringValue) name).val.toString());
    return new StringValue(v == null ? "" : v);
  }
  public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
  public static Value FVecEq(Value s, Value t) {
    Value[] a = seq(s), c = seq(t);
    if (a.length != c.length) return b(false);
    for (int i = 0; i < a.length; i++) if (!(d(a[i]) == d(c[i]))) return b(false);
    return b(true);
  }
  public static Value FVecClose(Value s, Value t, Value rtol, Value atol) {
    Value[] a = seq(s), c = seq(t);
    if (a.length != c.length) return b(false);
    double r = d(rtol), z = d(atol);
    for (int i = 0; i < a.length; i++) {
      double x = d(a[i]), y = d(c[i]);
      if (!(x == y || Math.abs(x - y) <= r * Math.max(Math.abs(x), Math.abs(y)) + z)) return b(false);
    }
    return b(true);
  }
  public static Value FVecDist(Value s, Value t) {
    Value[] a = seq(s), c = seq(t);
    double m = a.length == c.length ? 0 : Double.POSITIVE_INFINITY;
    for (int i = 0; i < Math.min(a.length, c.length); i++) {
      double e = Math.abs(d(a[i]) - d(c[i]));
      if (Double.isNaN(e)) e = d(a[i]) == d(c[i]) ? 0 : Double.POSITIVE_INFINITY;
      m = Math.max(m, e);
    }
    return f(m);
  }

  /** JSON text of a value; a pair of integers is a float. */
  public static Value FJson(Value v) { StringBuilder b = new StringBuilder(); json(v, b); return new StringValue(b.toString()); }
  static void json(Value v, StringBuilder b) {
    if (v instanceof IntValue || v instanceof BoolValue) { b.append(v.toString().toLowerCase()); return; }
    if (v instanceof StringValue) { b.append('"').append(((StringValue) v).val.toString()).append('"'); return; }
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v; b.append('{');
      for (int i = 0; i < r.names.length; i++) {
        if (i > 0) b.append(',');
        b.append('"').append(r.names[i].toString()).append("\":"); json(r.values[i], b);
      }
      b.append('}'); return;
    }
    Value tv = v.toTuple();
    if (tv == null) throw new RuntimeException("FJson: " + v);
    Value[] e = ((TupleValue) tv).elems;
    if (e.length == 2 && e[0] instanceof IntValue && e[1] instanceof IntValue) {
      double x = d(v);
      b.append(Double.isNaN(x) ? "NaN" : x == Double.POSITIVE_INFINITY ? "Infinity" : x == Double.NEGATIVE_INFINITY ? "-Infinity" : Double.toString(x)); return;
    }
    b.append('[');
    for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); json(e[i], b); }
    b.append(']');
  }
  public static Value FNaN() { return f(Double.NaN); }

  // ---- JSON -------------------------------------------------------------
  static final Map<String, Value> cache = new HashMap<>();
  public static synchronized Value FReadJson(Value path) {
    String p = ((StringValue) path).val.toString();
    Value v = cache.get(p);
    if (v == null) {
      try {
        v = new P(new String(Files.readAllBytes(Paths.get(p)), "UTF-8")).top();
      } catch (IOException e) { throw new RuntimeException(e); }
      v.deepNormalize();
      cache.put(p, v);
    }
    return v;
  }
  static class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    Value top() { Value v = val(); ws(); if (i != s.length()) err("trailing text"); return v; }
    void err(String m) { throw new RuntimeException("JSON: " + m + " at " + i); }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value val() {
      ws();
      char c = s.charAt(i);
      if (c == '{') return obj();
      if (c == '[') return arr();
      if (c == '"') return new StringValue(str());
      int j = i;
      while (i < s.length() && ",]} \n\t\r".indexOf(s.charAt(i)) < 0) i++;
      String w = s.substring(j, i);
      switch (w) {
        case "true": return BoolValue.ValTrue;
        case "false": return BoolValue.ValFalse;
        case "null": return new StringValue("none");
        case "NaN": return f(Double.NaN);
        case "Infinity": return f(Double.POSITIVE_INFINITY);
        case "-Infinity": return f(Double.NEGATIVE_INFINITY);
      }
      if (w.indexOf('.') >= 0 || w.indexOf('e') >= 0 || w.indexOf('E') >= 0) return f(Double.parseDouble(w));
      return IntValue.gen(Integer.parseInt(w));
    }
    String str() {
      StringBuilder b = new StringBuilder();
      i++;
      while (s.charAt(i) != '"') {
        char c = s.charAt(i++);
        if (c == '\\') {
          c = s.charAt(i++);
          if (c == 'n') c = '\n'; else if (c == 't') c = '\t';
          else if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; }
        }
        b.append(c);
      }
      i++;
      return b.toString();
    }
    Value arr() {
      ArrayList<Value> l = new ArrayList<>();
      i++; ws();
      if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
      while (true) {
        l.add(val()); ws();
        char c = s.charAt(i++);
        if (c == ']') break;
        if (c != ',') err("expected , or ]");
      }
      return new TupleValue(l.toArray(new Value[0]));
    }
    Value obj() {
      TreeMap<String, Value> m = new TreeMap<>();
      i++; ws();
      if (s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], true); }
      while (true) {
        ws(); String k = str(); ws();
        if (s.charAt(i++) != ':') err("expected :");
        m.put(k, val()); ws();
        char c = s.charAt(i++);
        if (c == '}') break;
        if (c != ',') err("expected , or }");
      }
      UniqueString[] ks = new UniqueString[m.size()];
      Value[] vs = new Value[m.size()];
      int n = 0;
      for (Map.Entry<String, Value> e : m.entrySet()) { ks[n] = UniqueString.uniqueStringOf(e.getKey()); vs[n++] = e.getValue(); }
      return new RecordValue(ks, vs, false);
    }
  }
}
