// TLC operator overrides for spec/Num.tla: decimal arithmetic with 40 significant digits on numbers
// written as strings ("1.25", "-3e-7", "nan", "inf", "-inf") or TLA+ integers.  The TLA+ module documents
// the meaning of each operator; this class only evaluates it.
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

public class Num {
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    static final D NAN = new D(null, 0), PINF = new D(null, 1), NINF = new D(null, -1);

    static final class D {
        final BigDecimal v; final int special; // special: 0 nan, 1 inf, -1 -inf when v == null
        D(BigDecimal v, int s) { this.v = v; this.special = s; }
        boolean fin() { return v != null; }
        int sign() { return v != null ? v.signum() : special; }
    }
    static D of(BigDecimal b) {
        return new D(b, 0);
    }
    static D parse(Value a) {
        if (a instanceof IntValue) return of(BigDecimal.valueOf(((IntValue) a).val));
        if (a instanceof StringValue) {
            String s = ((StringValue) a).val.toString();
            switch (s) {
                case "nan": case "NaN": return NAN;
                case "inf": return PINF;
                case "-inf": return NINF;
                default: return of(new BigDecimal(s));
            }
        }
        throw new RuntimeException("Num: not a number: " + a);
    }
    static Value out(D d) {
        if (!d.fin()) return new StringValue(d.special == 0 ? "nan" : d.special > 0 ? "inf" : "-inf");
        BigDecimal r = d.v.round(MC);
        if (r.signum() == 0) return new StringValue("0");
        return new StringValue(r.stripTrailingZeros().toString());
    }
    static D fromDouble(double x) {
        if (Double.isNaN(x)) return NAN;
        if (Double.isInfinite(x)) return x > 0 ? PINF : NINF;
        return of(new BigDecimal(x));
    }
    static double dbl(D d) {
        if (!d.fin()) return d.special == 0 ? Double.NaN : d.special > 0 ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY;
        return d.v.doubleValue();
    }
    static D add(D a, D b) {
        if (a.fin() && b.fin()) return of(a.v.add(b.v, MC));
        return fromDouble(dbl(a) + dbl(b));
    }
    static D neg(D a) {
        if (a.fin()) return of(a.v.negate());
        return a == NAN ? NAN : a == PINF ? NINF : PINF;
    }
    static D sub(D a, D b) { return add(a, neg(b)); }
    static D mul(D a, D b) {
        if (a.fin() && b.fin()) return of(a.v.multiply(b.v, MC));
        return fromDouble(dbl(a) * dbl(b));
    }
    static D div(D a, D b) {
        if (a.fin() && b.fin()) {
            if (b.v.signum() == 0) return a.v.signum() == 0 ? NAN : a.v.signum() > 0 ? PINF : NINF;
            return of(a.v.divide(b.v, MC));
        }
        return fromDouble(dbl(a) / dbl(b));
    }
    static boolean isnan(D a) { return !a.fin() && a.special == 0; }
    static int cmp(D a, D b) { // both not nan
        if (a.fin() && b.fin()) return a.v.compareTo(b.v);
        return Double.compare(a.fin() ? 0 : a.special * 2.0, b.fin() ? 0 : b.special * 2.0);
    }
    static D abs(D a) { return a.sign() < 0 ? neg(a) : a; }
    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static D sqrt(D a) {
        if (!a.fin()) return a == PINF ? PINF : NAN;
        if (a.v.signum() < 0) return NAN;
        if (a.v.signum() == 0) return of(BigDecimal.ZERO);
        return of(a.v.sqrt(MC));
    }
    // exp with ~36 correct digits: reduce the argument by 2^k, Taylor series, square back
    static D exp(D a) {
        if (!a.fin()) return a == PINF ? PINF : a == NINF ? of(BigDecimal.ZERO) : NAN;
        double x = a.v.doubleValue();
        if (x > 5000) return PINF;
        if (x < -800) return of(BigDecimal.ZERO);   // below the range of doubles
        MathContext m = new MathContext(48, RoundingMode.HALF_EVEN);
        int k = 0;
        BigDecimal y = a.v;
        while (Math.abs(x) > 0.25) { x /= 2; k++; }
        y = y.divide(BigDecimal.valueOf(2).pow(k), m);
        BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) {
            t = t.multiply(y, m).divide(BigDecimal.valueOf(i), m);
            s = s.add(t, m);
            if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-48")) < 0) break;
        }
        for (int i = 0; i < k; i++) s = s.multiply(s, m);
        return of(s.round(MC));
    }

    // ---- operators -------------------------------------------------------------------------------
    public static Value NAdd(Value a, Value b) { return out(add(parse(a), parse(b))); }
    public static Value NSub(Value a, Value b) { return out(sub(parse(a), parse(b))); }
    public static Value NMul(Value a, Value b) { return out(mul(parse(a), parse(b))); }
    public static Value NDiv(Value a, Value b) { return out(div(parse(a), parse(b))); }
    public static Value NNeg(Value a) { return out(neg(parse(a))); }
    public static Value NAbs(Value a) { return out(abs(parse(a))); }
    public static Value NSqrt(Value a) { return out(sqrt(parse(a))); }
    public static Value NExp(Value a) { return out(exp(parse(a))); }
    public static Value NLog(Value a) { return out(fromDouble(Math.log(dbl(parse(a))))); }
    public static Value NSin(Value a) { return out(fromDouble(StrictMath.sin(dbl(parse(a))))); }
    public static Value NCos(Value a) { return out(fromDouble(StrictMath.cos(dbl(parse(a))))); }
    public static Value NAtan2(Value a, Value b) { return out(fromDouble(StrictMath.atan2(dbl(parse(a)), dbl(parse(b))))); }
    public static Value NPowR(Value a, Value b) { return out(fromDouble(StrictMath.pow(dbl(parse(a)), dbl(parse(b))))); }
    public static Value NPow(Value a, Value n) {
        D x = parse(a); int k = ((IntValue) n).val;
        if (!x.fin()) return out(fromDouble(Math.pow(dbl(x), k)));
        if (k < 0) return out(div(of(BigDecimal.ONE), of(x.v.pow(-k, MC))));
        return out(of(x.v.pow(k, MC)));
    }
    public static Value NLe(Value a, Value b) { D x = parse(a), y = parse(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) <= 0); }
    public static Value NLt(Value a, Value b) { D x = parse(a), y = parse(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) < 0); }
    public static Value NEq(Value a, Value b) {
        D x = parse(a), y = parse(b);
        if (isnan(x) || isnan(y)) return bool(isnan(x) && isnan(y));
        return bool(cmp(x, y) == 0);
    }
    public static Value NIsFin(Value a) { return bool(parse(a).fin()); }
    public static Value NMax2(Value a, Value b) { D x = parse(a), y = parse(b); if (isnan(x)||isnan(y)) return out(NAN); return out(cmp(x, y) >= 0 ? x : y); }
    public static Value NMin2(Value a, Value b) { D x = parse(a), y = parse(b); if (isnan(x)||isnan(y)) return out(NAN); return out(cmp(x, y) <= 0 ? x : y); }
    // |a-b| <= rtol*max(|a|,|b|) + atol ; equal specials are close
    static boolean close(D x, D y, D rtol, D atol) {
        if (!x.fin() || !y.fin()) return x.fin() == y.fin() && x.special == y.special;
        BigDecimal m = x.v.abs().max(y.v.abs()).multiply(rtol.v, MC).add(atol.v, MC);
        return x.v.subtract(y.v).abs().compareTo(m) <= 0;
    }
    public static Value NClose(Value a, Value b, Value rtol, Value atol) {
        return bool(close(parse(a), parse(b), parse(rtol), parse(atol)));
    }
    // ---- sequences -------------------------------------------------------------------------------
    static Value[] elems(Value s) {
        Value t = (Value) s.toTuple();
        if (t == null) throw new RuntimeException("Num: not a sequence: " + s);
        return ((TupleValue) t).elems;
    }
    static D[] vec(Value s) {
        Value[] e = elems(s);
        D[] r = new D[e.length];
        for (int i = 0; i < e.length; i++) r[i] = parse(e[i]);
        return r;
    }
    static Value outv(D[] v) {
        Value[] r = new Value[v.length];
        for (int i = 0; i < r.length; i++) r[i] = out(v[i]);
        return new TupleValue(r);
    }
    static final D ZERO = of(BigDecimal.ZERO);
    public static Value NSum(Value s) { D r = ZERO; for (D x : vec(s)) r = add(r, x); return out(r); }
    public static Value NMaxAbs(Value s) {
        D r = ZERO;
        for (D x : vec(s)) { if (isnan(x)) return out(NAN); D y = abs(x); if (cmp(y, r) > 0) r = y; }
        return out(r);
    }
    public static Value NDot(Value s, Value t) {
        D[] a = vec(s), b = vec(t);
        if (a.length != b.length) throw new RuntimeException("NDot: lengths differ " + a.length + " " + b.length);
        D r = ZERO;
        for (int i = 0; i < a.length; i++) r = add(r, mul(a[i], b[i]));
        return out(r);
    }
    public static Value VAdd(Value s, Value t) {
        D[] a = vec(s), b = vec(t);
        if (a.length != b.length) throw new RuntimeException("VAdd: lengths differ " + a.length + " " + b.length);
        D[] r = new D[a.length];
        for (int i = 0; i < a.length; i++) r[i] = add(a[i], b[i]);
        return outv(r);
    }
    public static Value VSub(Value s, Value t) {
        D[] a = vec(s), b = vec(t);
        if (a.length != b.length) throw new RuntimeException("VSub: lengths differ " + a.length + " " + b.length);
        D[] r = new D[a.length];
        for (int i = 0; i < a.length; i++) r[i] = sub(a[i], b[i]);
        return outv(r);
    }
    public static Value VScale(Value c, Value s) {
        D k = parse(c); D[] a = vec(s); D[] r = new D[a.length];
        for (int i = 0; i < a.length; i++) r[i] = mul(k, a[i]);
        return outv(r);
    }
    static D[][] mat(Value m) {
        Value[] e = elems(m);
        D[][] r = new D[e.length][];
        for (int i = 0; i < e.length; i++) r[i] = vec(e[i]);
        return r;
    }
    static Value outm(D[][] m) {
        Value[] r = new Value[m.length];
        for (int i = 0; i < r.length; i++) r[i] = outv(m[i]);
        return new TupleValue(r);
    }
    public static Value MMul(Value x, Value y) {
        D[][] a = mat(x), b = mat(y);
        int n = a.length, k = b.length, m = k == 0 ? 0 : b[0].length;
        D[][] r = new D[n][m];
        for (int i = 0; i < n; i++) {
            if (a[i].length != k) throw new RuntimeException("MMul: shapes " + a[i].length + " " + k);
            for (int j = 0; j < m; j++) {
                D s = ZERO;
                for (int l = 0; l < k; l++) s = add(s, mul(a[i][l], b[l][j]));
                r[i][j] = s;
            }
        }
        return outm(r);
    }
    public static Value MVec(Value x, Value v) {
        D[][] a = mat(x); D[] b = vec(v); D[] r = new D[a.length];
        for (int i = 0; i < a.length; i++) {
            if (a[i].length != b.length) throw new RuntimeException("MVec: shapes " + a[i].length + " " + b.length);
            D s = ZERO;
            for (int l = 0; l < b.length; l++) s = add(s, mul(a[i][l], b[l]));
            r[i] = s;
        }
        return outv(r);
    }
    public static Value MT(Value x) {
        Value[] e = elems(x);
        if (e.length == 0) return new TupleValue(new Value[0]);
        Value[][] rows = new Value[e.length][];
        for (int i = 0; i < e.length; i++) rows[i] = elems(e[i]);
        int m = rows[0].length;
        Value[] r = new Value[m];
        for (int j = 0; j < m; j++) {
            Value[] c = new Value[e.length];
            for (int i = 0; i < e.length; i++) c[i] = rows[i][j];
            r[j] = new TupleValue(c);
        }
        return new TupleValue(r);
    }
    public static Value MMaxAbs(Value x) {
        D r = ZERO;
        for (D[] row : mat(x)) for (D d : row) { if (isnan(d)) return out(NAN); D y = abs(d); if (cmp(y, r) > 0) r = y; }
        return out(r);
    }
    public static Value VClose(Value s, Value t, Value rtol, Value atol) {
        D[] a = vec(s), b = vec(t);
        if (a.length != b.length) return bool(false);
        D rt = parse(rtol), at = parse(atol);
        for (int i = 0; i < a.length; i++) if (!close(a[i], b[i], rt, at)) return bool(false);
        return bool(true);
    }
    public static Value MClose(Value s, Value t, Value rtol, Value atol) {
        D[][] a = mat(s), b = mat(t);
        if (a.length != b.length) return bool(false);
        D rt = parse(rtol), at = parse(atol);
        for (int i = 0; i < a.length; i++) {
            if (a[i].length != b[i].length) return bool(false);
            for (int j = 0; j < a[i].length; j++) if (!close(a[i][j], b[i][j], rt, at)) return bool(false);
        }
        return bool(true);
    }
    // solution X of A X = B by Gaussian elimination with pivoting in 40 digits ("nan" entries when singular)
    public static Value MSolve(Value x, Value y) {
        D[][] a = mat(x), b = mat(y);
        int n = a.length, m = b[0].length;
        BigDecimal[][] w = new BigDecimal[n][n + m];
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < n; j++) { if (!a[i][j].fin()) return nanm(n, m); w[i][j] = a[i][j].v; }
            for (int j = 0; j < m; j++) { if (!b[i][j].fin()) return nanm(n, m); w[i][n + j] = b[i][j].v; }
        }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) if (w[i][c].abs().compareTo(w[p][c].abs()) > 0) p = i;
            if (w[p][c].signum() == 0) return nanm(n, m);
            BigDecimal[] t = w[c]; w[c] = w[p]; w[p] = t;
            for (int i = 0; i < n; i++) if (i != c && w[i][c].signum() != 0) {
                BigDecimal f = w[i][c].divide(w[c][c], MC);
                for (int j = c; j < n + m; j++) w[i][j] = w[i][j].subtract(f.multiply(w[c][j], MC), MC);
            }
        }
        D[][] r = new D[n][m];
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r[i][j] = of(w[i][n + j].divide(w[i][i], MC));
        return outm(r);
    }
    static Value nanm(int n, int m) {
        D[][] r = new D[n][m];
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r[i][j] = NAN;
        return outm(r);
    }
    // the same value with all functions evaluated (TLC keeps function expressions unevaluated)
    public static Value Deep(Value v) {
        if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue || v instanceof TupleValue) {
            Value t = (Value) v.toTuple();
            if (t != null) {
                Value[] e = ((TupleValue) t).elems, r = new Value[e.length];
                for (int i = 0; i < r.length; i++) r[i] = Deep(e[i]);
                return new TupleValue(r);
            }
            FcnRcdValue f = (FcnRcdValue) v.toFcnRcd();
            if (f == null) return v;
            for (int i = 0; i < f.values.length; i++) f.values[i] = Deep(f.values[i]);
            return f;
        }
        if (v instanceof RecordValue) {
            RecordValue q = (RecordValue) v;
            for (int i = 0; i < q.values.length; i++) q.values[i] = Deep(q.values[i]);
        }
        return v;
    }
}
