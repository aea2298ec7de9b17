import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.ValueInputStream;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC module override for RealArith.tla.  Real numbers are evaluated with DIGITS
 * significant decimal digits (the definitions in RealArith.tla are over the reals).
 * A value that is not a finite number (nan, inf) is represented with v == null and no
 * comparison with it is ever true.
 */
public class RealArith {

    static final int DIGITS = Integer.getInteger("real.digits", 70);
    static final MathContext MC = new MathContext(DIGITS, RoundingMode.HALF_EVEN);
    static final MathContext MCX = new MathContext(DIGITS + 15, RoundingMode.HALF_EVEN);

    /** A real number as a TLC value; only used within expressions, never within states. */
    public static final class Real extends Value {
        final BigDecimal v;
        Real(BigDecimal v) { this.v = v == null ? null : v.round(MC); }
        public byte getKind() { return STRINGVALUE; }
        public String getKindString() { return "a real"; }
        public int compareTo(Object o) {
            if (!(o instanceof Real)) throw new RuntimeException("real compared with " + o);
            BigDecimal w = ((Real) o).v;
            if (v == null || w == null) return v == w ? 0 : (v == null ? -1 : 1);
            return v.compareTo(w);
        }
        public boolean equals(Object o) { return o instanceof Real && v != null && ((Real) o).v != null && v.compareTo(((Real) o).v) == 0; }
        public boolean member(Value e) { throw new RuntimeException("member of a real"); }
        public boolean isFinite() { throw new RuntimeException("finite of a real"); }
        public Value takeExcept(ValueExcept e) { if (e.idx < e.path.length) throw new RuntimeException("EXCEPT of a real"); return e.value; }
        public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT of a real"); }
        public int size() { throw new RuntimeException("size of a real"); }
        public boolean isNormalized() { return true; }
        public Value normalize() { return this; }
        public boolean isDefined() { return true; }
        public IValue deepCopy() { return this; }
        public void write(IValueOutputStream s) throws java.io.IOException { throw new RuntimeException("reals are not part of states"); }
        public long fingerPrint(long fp) { return tlc2.util.FP64.Extend(fp, str()); }
        String str() { return v == null ? "nan" : v.round(new MathContext(20)).toString(); }
        public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(str()); }
    }

    static final Real ZERO = new Real(BigDecimal.ZERO), ONE = new Real(BigDecimal.ONE), NAN = new Real(null);

    static Real r(Value x) {
        if (x instanceof Real) return (Real) x;
        if (x instanceof IntValue) return new Real(BigDecimal.valueOf(((IntValue) x).val));
        if (x instanceof StringValue) return parse(((StringValue) x).val.toString());
        throw new RuntimeException("not a real: " + x.getClass() + " " + x);
    }
    static Real parse(String s) {
        try { return new Real(new BigDecimal(s)); }
        catch (NumberFormatException e) { return NAN; } // "nan", "inf", "none"
    }
    static Real mk(BigDecimal b) { return new Real(b); }

    // ---- scalars
    public static Value R(Value x) { return r(x); }
    public static Value RIsNum(Value x) { return r(x).v != null ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RAdd(Value a, Value b) { Real x = r(a), y = r(b); return x.v == null || y.v == null ? NAN : mk(x.v.add(y.v, MC)); }
    public static Value RSub(Value a, Value b) { Real x = r(a), y = r(b); return x.v == null || y.v == null ? NAN : mk(x.v.subtract(y.v, MC)); }
    public static Value RMul(Value a, Value b) { Real x = r(a), y = r(b); return x.v == null || y.v == null ? NAN : mk(x.v.multiply(y.v, MC)); }
    public static Value RDiv(Value a, Value b) { Real x = r(a), y = r(b); return x.v == null || y.v == null || y.v.signum() == 0 ? NAN : mk(x.v.divide(y.v, MC)); }
    public static Value RNeg(Value a) { Real x = r(a); return x.v == null ? NAN : mk(x.v.negate()); }
    public static Value RAbs(Value a) { Real x = r(a); return x.v == null ? NAN : mk(x.v.abs()); }
    public static Value RLe(Value a, Value b) { Real x = r(a), y = r(b); return x.v != null && y.v != null && x.v.compareTo(y.v) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RLt(Value a, Value b) { Real x = r(a), y = r(b); return x.v != null && y.v != null && x.v.compareTo(y.v) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RSqrt(Value a) { Real x = r(a); return x.v == null || x.v.signum() < 0 ? NAN : mk(x.v.sqrt(MC)); }
    public static Value RExp(Value a) { Real x = r(a); return x.v == null ? NAN : mk(exp(x.v)); }
    public static Value RLn(Value a) { Real x = r(a); return x.v == null || x.v.signum() <= 0 ? NAN : mk(ln(x.v)); }
    public static Value RPow(Value a, Value b) { Real x = r(a), y = r(b);
        if (x.v == null || y.v == null || x.v.signum() <= 0) return NAN;
        if (y.v.stripTrailingZeros().scale() <= 0 && y.v.abs().compareTo(BigDecimal.valueOf(1000)) <= 0) return mk(x.v.pow(y.v.intValueExact(), MCX));
        return mk(exp(y.v.multiply(ln(x.v), MCX))); }

    static BigDecimal exp(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        double d = x.doubleValue();
        if (d < -100000) return BigDecimal.ZERO;
        if (d > 100000) throw new RuntimeException("exp overflow " + d);
        int k = Math.max(0, (int) Math.ceil(Math.log(Math.abs(d) + 1e-300) / Math.log(2)) + 24);
        MathContext mc = new MathContext(DIGITS + 15 + k / 3, RoundingMode.HALF_EVEN);
        BigDecimal y = x.divide(new BigDecimal(BigInteger.ONE.shiftLeft(k)), mc), t = BigDecimal.ONE, s = BigDecimal.ONE;
        BigDecimal eps = BigDecimal.ONE.movePointLeft(mc.getPrecision() + 2);
        for (int i = 1; i < 400; i++) { t = t.multiply(y, mc).divide(BigDecimal.valueOf(i), mc); s = s.add(t, mc); if (t.abs().compareTo(eps) < 0) break; }
        for (int i = 0; i < k; i++) s = s.multiply(s, mc);
        return s.round(MCX);
    }
    static final BigDecimal LN10 = lnNewton(BigDecimal.TEN);
    static BigDecimal lnNewton(BigDecimal x) { // Halley iterations of exp(y) = x
        BigDecimal y = new BigDecimal(Math.log(x.doubleValue()));
        for (int i = 0; i < 4; i++) {
            BigDecimal e = exp(y);
            y = y.add(BigDecimal.valueOf(2).multiply(x.subtract(e, MCX), MCX).divide(x.add(e, MCX), MCX), MCX);
        }
        return y;
    }
    static BigDecimal ln(BigDecimal x) {
        int e = x.precision() - x.scale() - 1;
        BigDecimal m = x.movePointLeft(e); // 1 <= m < 10
        if (e == 0) return lnNewton(m);
        BigDecimal l = m.compareTo(BigDecimal.ONE) == 0 ? BigDecimal.ZERO : lnNewton(m);
        return l.add(LN10.multiply(BigDecimal.valueOf(e), MCX), MCX);
    }

    // ---- vectors and matrices (sequences of reals, sequences of rows)
    static Value[] seq(Value x) {
        Value t = x.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + x.getClass());
        return ((TupleValue) t).elems;
    }
    static BigDecimal[] vec(Value x) { Value[] e = seq(x); BigDecimal[] v = new BigDecimal[e.length]; for (int i = 0; i < v.length; i++) v[i] = r(e[i]).v; return v; }
    static BigDecimal[][] mat(Value x) { Value[] e = seq(x); BigDecimal[][] m = new BigDecimal[e.length][]; for (int i = 0; i < m.length; i++) m[i] = vec(e[i]); return m; }
    static Value fromVec(BigDecimal[] v) { Value[] e = new Value[v.length]; for (int i = 0; i < e.length; i++) e[i] = new Real(v[i]); return new TupleValue(e); }
    static Value fromMat(BigDecimal[][] m) { Value[] e = new Value[m.length]; for (int i = 0; i < e.length; i++) e[i] = fromVec(m[i]); return new TupleValue(e); }
    static boolean bad(BigDecimal[] v) { for (BigDecimal b : v) if (b == null) return true; return false; }
    static boolean bad(BigDecimal[][] m) { for (BigDecimal[] b : m) if (bad(b)) return true; return false; }

    public static Value RDot(Value a, Value b) {
        BigDecimal[] x = vec(a), y = vec(b);
        if (x.length != y.length) throw new RuntimeException("RDot: lengths");
        if (bad(x) || bad(y)) return NAN;
        BigDecimal s = BigDecimal.ZERO;
        for (int i = 0; i < x.length; i++) s = s.add(x[i].multiply(y[i], MC), MC);
        return mk(s);
    }
    public static Value RSum(Value a) {
        BigDecimal[] x = vec(a);
        if (bad(x)) return NAN;
        BigDecimal s = BigDecimal.ZERO;
        for (BigDecimal b : x) s = s.add(b, MC);
        return mk(s);
    }
    public static Value IsNone(Value x) { return x instanceof StringValue && ((StringValue) x).val.toString().equals("none") ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RSeq(Value a) { // converts all the leaves of a nested sequence to reals
        if (a instanceof StringValue || a instanceof IntValue || a instanceof Real) return r(a);
        Value[] e = seq(a), o = new Value[e.length];
        for (int i = 0; i < e.length; i++) o[i] = RSeq(e[i]);
        return new TupleValue(o);
    }
    public static Value MatVec(Value a, Value b) {
        BigDecimal[][] m = mat(a); BigDecimal[] y = vec(b), o = new BigDecimal[m.length];
        if (bad(m) || bad(y)) { return fromVec(o); }
        for (int i = 0; i < o.length; i++) { BigDecimal s = BigDecimal.ZERO; for (int j = 0; j < y.length; j++) s = s.add(m[i][j].multiply(y[j], MC), MC); o[i] = s; }
        return fromVec(o);
    }
    /** The x with A x = b (Gaussian elimination with partial pivoting); nan if singular. */
    public static Value Solve(Value a, Value b) {
        BigDecimal[][] m = mat(a); BigDecimal[] y = vec(b); int n = y.length;
        BigDecimal[] x = new BigDecimal[n];
        if (bad(m) || bad(y) || elim(m, y) == null) return fromVec(new BigDecimal[n]);
        for (int i = n - 1; i >= 0; i--) { BigDecimal s = y[i]; for (int j = i + 1; j < n; j++) s = s.subtract(m[i][j].multiply(x[j], MC), MC); x[i] = s.divide(m[i][i], MC); }
        return fromVec(x);
    }
    /** The inverse of A (Gauss-Jordan with partial pivoting); nan if singular. */
    public static Value Inverse(Value a) {
        BigDecimal[][] m = mat(a); int n = m.length;
        BigDecimal[][] o = new BigDecimal[n][n];
        if (bad(m)) return fromMat(new BigDecimal[n][n]);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o[i][j] = i == j ? BigDecimal.ONE : BigDecimal.ZERO;
        for (int k = 0; k < n; k++) {
            int p = k; for (int i = k + 1; i < n; i++) if (m[i][k].abs().compareTo(m[p][k].abs()) > 0) p = i;
            if (m[p][k].signum() == 0) return fromMat(new BigDecimal[n][n]);
            BigDecimal[] t = m[p]; m[p] = m[k]; m[k] = t; t = o[p]; o[p] = o[k]; o[k] = t;
            BigDecimal d = BigDecimal.ONE.divide(m[k][k], MC);
            for (int j = 0; j < n; j++) { m[k][j] = m[k][j].multiply(d, MC); o[k][j] = o[k][j].multiply(d, MC); }
            for (int i = 0; i < n; i++) {
                if (i == k || m[i][k].signum() == 0) continue;
                BigDecimal f = m[i][k];
                for (int j = 0; j < n; j++) { m[i][j] = m[i][j].subtract(f.multiply(m[k][j], MC), MC); o[i][j] = o[i][j].subtract(f.multiply(o[k][j], MC), MC); }
            }
        }
        return fromMat(o);
    }
    static Integer elim(BigDecimal[][] m, BigDecimal[] y) {
        int n = m.length, sign = 1;
        for (int k = 0; k < n; k++) {
            int p = k; for (int i = k + 1; i < n; i++) if (m[i][k].abs().compareTo(m[p][k].abs()) > 0) p = i;
            if (m[p][k].signum() == 0) return null;
            if (p != k) { BigDecimal[] t = m[p]; m[p] = m[k]; m[k] = t; if (y != null) { BigDecimal u = y[p]; y[p] = y[k]; y[k] = u; } sign = -sign; }
            for (int i = k + 1; i < n; i++) {
                if (m[i][k].signum() == 0) continue;
                BigDecimal f = m[i][k].divide(m[k][k], MC);
                for (int j = k + 1; j < n; j++) m[i][j] = m[i][j].subtract(f.multiply(m[k][j], MC), MC);
                m[i][k] = BigDecimal.ZERO;
                if (y != null) y[i] = y[i].subtract(f.multiply(y[k], MC), MC);
            }
        }
        return sign;
    }
    /** A B */
    public static Value MatMul(Value a, Value b) {
        BigDecimal[][] x = mat(a), y = mat(b); int n = x.length, q = y.length, p = q == 0 ? 0 : y[0].length;
        BigDecimal[][] o = new BigDecimal[n][p];
        if (bad(x) || bad(y)) return fromMat(o);
        for (int i = 0; i < n; i++) { if (x[i].length != q) throw new RuntimeException("MatMul: shapes"); for (int j = 0; j < p; j++) { BigDecimal s = BigDecimal.ZERO; for (int k = 0; k < q; k++) s = s.add(x[i][k].multiply(y[k][j], MC), MC); o[i][j] = s; } }
        return fromMat(o);
    }
    /** Largest sum of the absolute values of a row */
    public static Value NormInf(Value a) {
        BigDecimal[][] x = mat(a); if (bad(x)) return NAN;
        BigDecimal m = BigDecimal.ZERO;
        for (BigDecimal[] w : x) { BigDecimal s = BigDecimal.ZERO; for (BigDecimal b : w) s = s.add(b.abs(), MC); m = m.max(s); }
        return mk(m);
    }
    public static Value LnDet(Value a) { // ln |det A|
        BigDecimal[][] m = mat(a);
        if (bad(m) || elim(m, null) == null) return NAN;
        BigDecimal s = BigDecimal.ZERO;
        for (int i = 0; i < m.length; i++) s = s.add(ln(m[i][i].abs()), MC);
        return mk(s);
    }
    /** <<smallest, largest>> eigenvalue of the symmetric matrix A (Jacobi rotations with 60 digits). */
    public static Value EigMinMax(Value a) {
        MathContext mc = new MathContext(60);
        BigDecimal[][] m = mat(a); int n = m.length;
        if (bad(m)) return fromVec(new BigDecimal[2]);
        for (int sweep = 0; sweep < 60; sweep++) {
            BigDecimal off = BigDecimal.ZERO, dia = BigDecimal.ZERO;
            for (int i = 0; i < n; i++) { dia = dia.max(m[i][i].abs()); for (int j = i + 1; j < n; j++) off = off.max(m[i][j].abs()); }
            if (off.signum() == 0 || off.compareTo(dia.movePointLeft(45)) < 0) break;
            for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
                if (m[p][q].signum() == 0) continue;
                BigDecimal th = m[q][q].subtract(m[p][p], mc).divide(m[p][q].multiply(BigDecimal.valueOf(2), mc), mc);
                BigDecimal t = BigDecimal.ONE.divide(th.abs().add(th.multiply(th, mc).add(BigDecimal.ONE, mc).sqrt(mc), mc), mc);
                if (th.signum() < 0) t = t.negate();
                BigDecimal c = BigDecimal.ONE.divide(t.multiply(t, mc).add(BigDecimal.ONE, mc).sqrt(mc), mc), s = t.multiply(c, mc);
                for (int k = 0; k < n; k++) { BigDecimal kp = m[k][p], kq = m[k][q]; m[k][p] = c.multiply(kp, mc).subtract(s.multiply(kq, mc), mc); m[k][q] = s.multiply(kp, mc).add(c.multiply(kq, mc), mc); }
                for (int k = 0; k < n; k++) { BigDecimal pk = m[p][k], qk = m[q][k]; m[p][k] = c.multiply(pk, mc).subtract(s.multiply(qk, mc), mc); m[q][k] = s.multiply(pk, mc).add(c.multiply(qk, mc), mc); }
            }
        }
        BigDecimal lo = m[0][0], hi = m[0][0];
        for (int i = 1; i < n; i++) { lo = lo.min(m[i][i]); hi = hi.max(m[i][i]); }
        return fromVec(new BigDecimal[] { lo, hi });
    }
    /** Largest |obs - exp| / (atol + rtol * scale) test over nested sequences of the same shape. */
    public static Value Close(Value obs, Value exp, Value rtol, Value atol) {
        return close(obs, exp, r(rtol).v, r(atol).v) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    static boolean leaf(Value a) { return a instanceof StringValue || a instanceof IntValue || a instanceof Real; }
    static boolean close(Value o, Value e, BigDecimal rt, BigDecimal at) {
        if (leaf(o) || leaf(e)) {
            if (!leaf(o) || !leaf(e)) return false;
            Real x = r(o), y = r(e);
            if (x.v == null || y.v == null) return false;
            return x.v.subtract(y.v, MC).abs().compareTo(at.add(rt.multiply(y.v.abs(), MC), MC)) <= 0;
        }
        Value ot = o.toTuple(), et = e.toTuple();
        if (ot == null || et == null) return false;
        Value[] a = ((TupleValue) ot).elems, b = ((TupleValue) et).elems;
        if (a.length != b.length) return false;
        for (int i = 0; i < a.length; i++) if (!close(a[i], b[i], rt, at)) return false;
        return true;
    }
    public static Value MaxAbs(Value a) { BigDecimal m = maxabs(a); return mk(m); }
    static BigDecimal maxabs(Value a) {
        if (leaf(a)) { Real x = r(a); return x.v == null ? null : x.v.abs(); }
        BigDecimal m = BigDecimal.ZERO;
        for (Value e : seq(a)) { BigDecimal b = maxabs(e); if (b == null) return null; m = m.max(b); }
        return m;
    }
    public static Value RStr(Value a) { return new StringValue(r(a).str()); }
}
