package edpytspec;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.HashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * Arithmetic primitives of the TLA+ module RealArith: fixed point numbers with
 * 256 binary digits after the point, held as tuples of 32-bit limbs.  <<>> is
 * the undefined number (a NaN or an infinity of the implementation, a division
 * by zero, ...): it propagates through every operation and compares to nothing.
 */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { Overrides.class }; }

    static final int S = 256;                    // binary digits after the point
    static final BigInteger ONE = BigInteger.ONE.shiftLeft(S);
    static final int G = 64;                     // guard digits of the series

    static final class RealValue extends TupleValue {
        final BigInteger v;
        RealValue(BigInteger v) { super(limbs(v)); this.v = v; }
        static Value[] limbs(BigInteger v) {
            byte[] b = v.toByteArray();
            int n = (b.length + 3) / 4;
            Value[] e = new Value[n];
            int pos = b.length;
            for (int i = n - 1; i >= 0; i--) {
                int w = 0;
                for (int k = 0; k < 4; k++) {
                    int idx = pos - 1 - k;
                    int by = idx >= 0 ? (b[idx] & 0xff) : ((b[0] < 0) ? 0xff : 0);
                    w |= by << (8 * k);
                }
                pos -= 4;
                e[i] = IntValue.gen(w);
            }
            return e;
        }
    }

    static final TupleValue NAN = new TupleValue(new Value[0]);

    static Value mk(BigInteger v) { return v == null ? NAN : new RealValue(v); }

    static final HashMap<String, BigInteger> cache = new HashMap<>();

    static BigInteger parse(String s) {
        synchronized (cache) {
            if (cache.containsKey(s)) return cache.get(s);
            BigInteger r = parse0(s.trim());
            if (cache.size() < 200000) cache.put(s, r);
            return r;
        }
    }

    static BigInteger parse0(String s) {
        String l = s.toLowerCase();
        if (l.contains("nan") || l.contains("inf")) return null;
        try {
            int k = s.indexOf('/');
            if (k > 0) {
                BigInteger p = new BigInteger(s.substring(0, k).trim());
                BigInteger q = new BigInteger(s.substring(k + 1).trim());
                return p.shiftLeft(S).divide(q);
            }
            if (l.startsWith("0x") || l.startsWith("-0x") || l.startsWith("+0x")) {
                double d = Double.parseDouble(s);
                if (Double.isNaN(d) || Double.isInfinite(d)) return null;
                return dec(new BigDecimal(d));
            }
            return dec(new BigDecimal(s));
        } catch (NumberFormatException | ArithmeticException e) {
            return null;
        }
    }

    static BigInteger dec(BigDecimal d) {
        return d.multiply(new BigDecimal(ONE)).toBigInteger();
    }

    static BigInteger big(Value x) {
        if (x instanceof RealValue) return ((RealValue) x).v;
        if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val).shiftLeft(S);
        if (x instanceof StringValue) return parse(((StringValue) x).val.toString());
        Value t = (Value) x.toTuple();
        if (t instanceof TupleValue) {
            Value[] e = ((TupleValue) t).elems;
            if (e.length == 0) return null;
            BigInteger r = BigInteger.valueOf(((IntValue) e[0]).val);
            for (int i = 1; i < e.length; i++)
                r = r.shiftLeft(32).or(BigInteger.valueOf(((IntValue) e[i]).val & 0xffffffffL));
            return r;
        }
        throw new RuntimeException("RealArith: not a number: " + x);
    }

    static Value[] seq(Value x) {
        Value t = (Value) x.toTuple();
        if (t instanceof TupleValue) return ((TupleValue) t).elems;
        throw new RuntimeException("RealArith: not a sequence: " + x);
    }

    static BigInteger[] bigs(Value x) {
        Value[] e = seq(x);
        BigInteger[] r = new BigInteger[e.length];
        for (int i = 0; i < r.length; i++) r[i] = big(e[i]);
        return r;
    }

    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "R", module = "RealArith", warn = false)
    public static Value R(Value x) { return mk(big(x)); }

    @TLAPlusOperator(identifier = "ROk", module = "RealArith", warn = false)
    public static Value ROk(Value x) { return bool(big(x) != null); }

    @TLAPlusOperator(identifier = "RAdd", module = "RealArith", warn = false)
    public static Value RAdd(Value x, Value y) {
        BigInteger a = big(x), b = big(y);
        return (a == null || b == null) ? NAN : mk(a.add(b));
    }

    @TLAPlusOperator(identifier = "RSub", module = "RealArith", warn = false)
    public static Value RSub(Value x, Value y) {
        BigInteger a = big(x), b = big(y);
        return (a == null || b == null) ? NAN : mk(a.subtract(b));
    }

    static BigInteger rsh(BigInteger p, int s) {          // round to nearest
        return p.add(BigInteger.ONE.shiftLeft(s - 1)).shiftRight(s);
    }

    @TLAPlusOperator(identifier = "RMul", module = "RealArith", warn = false)
    public static Value RMul(Value x, Value y) {
        BigInteger a = big(x), b = big(y);
        return (a == null || b == null) ? NAN : mk(rsh(a.multiply(b), S));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "RealArith", warn = false)
    public static Value RDiv(Value x, Value y) {
        BigInteger a = big(x), b = big(y);
        if (a == null || b == null || b.signum() == 0) return NAN;
        return mk(a.shiftLeft(S).divide(b));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "RealArith", warn = false)
    public static Value RNeg(Value x) { BigInteger a = big(x); return a == null ? NAN : mk(a.negate()); }

    @TLAPlusOperator(identifier = "RAbs", module = "RealArith", warn = false)
    public static Value RAbs(Value x) { BigInteger a = big(x); return a == null ? NAN : mk(a.abs()); }

    @TLAPlusOperator(identifier = "RLe", module = "RealArith", warn = false)
    public static Value RLe(Value x, Value y) {
        BigInteger a = big(x), b = big(y);
        return bool(a != null && b != null && a.compareTo(b) <= 0);
    }

    @TLAPlusOperator(identifier = "RLt", module = "RealArith", warn = false)
    public static Value RLt(Value x, Value y) {
        BigInteger a = big(x), b = big(y);
        return bool(a != null && b != null && a.compareTo(b) < 0);
    }

    @TLAPlusOperator(identifier = "RNear", module = "RealArith", warn = false)
    public static Value RNear(Value x, Value y, Value tol) {
        BigInteger a = big(x), b = big(y), t = big(tol);
        return bool(a != null && b != null && t != null && a.subtract(b).abs().compareTo(t) <= 0);
    }

    /** Number of entries of two equally long sequences further apart than tol (-1: lengths differ). */
    @TLAPlusOperator(identifier = "RFar", module = "RealArith", warn = false)
    public static Value RFar(Value x, Value y, Value tol) {
        BigInteger[] a = bigs(x), b = bigs(y);
        BigInteger t = big(tol);
        if (a.length != b.length || t == null) return IntValue.gen(-1);
        int n = 0;
        for (int i = 0; i < a.length; i++)
            if (a[i] == null || b[i] == null || a[i].subtract(b[i]).abs().compareTo(t) > 0) n++;
        return IntValue.gen(n);
    }

    @TLAPlusOperator(identifier = "RSum", module = "RealArith", warn = false)
    public static Value RSum(Value x) {
        BigInteger r = BigInteger.ZERO;
        for (BigInteger b : bigs(x)) { if (b == null) return NAN; r = r.add(b); }
        return mk(r);
    }

    static BigInteger dot(BigInteger[] a, BigInteger[] b) {
        if (a.length != b.length) return null;
        BigInteger r = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) {
            if (a[i] == null || b[i] == null) return null;
            if (a[i].signum() != 0 && b[i].signum() != 0) r = r.add(a[i].multiply(b[i]));
        }
        return rsh(r, S);
    }

    @TLAPlusOperator(identifier = "RDot", module = "RealArith", warn = false)
    public static Value RDot(Value x, Value y) { return mk(dot(bigs(x), bigs(y))); }

    static BigInteger[][] mat(Value x) {
        Value[] e = seq(x);
        BigInteger[][] r = new BigInteger[e.length][];
        for (int i = 0; i < r.length; i++) r[i] = bigs(e[i]);
        return r;
    }

    static Value vec(BigInteger[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = mk(a[i]);
        return new TupleValue(e);
    }

    static Value matv(BigInteger[][] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = vec(a[i]);
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "RVec", module = "RealArith", warn = false)
    public static Value RVec(Value x) { return vec(bigs(x)); }

    @TLAPlusOperator(identifier = "RMat", module = "RealArith", warn = false)
    public static Value RMat(Value x) { return matv(mat(x)); }

    static BigInteger[][] transpose(BigInteger[][] a) {
        int m = a.length, n = m == 0 ? 0 : a[0].length;
        BigInteger[][] r = new BigInteger[n][m];
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r[j][i] = a[i][j];
        return r;
    }

    @TLAPlusOperator(identifier = "RTranspose", module = "RealArith", warn = false)
    public static Value RTranspose(Value x) {
        Value[] rows = seq(x);
        int m = rows.length;
        if (m == 0) return new TupleValue(new Value[0]);
        Value[][] e = new Value[m][];
        for (int i = 0; i < m; i++) e[i] = seq(rows[i]);
        int n = e[0].length;
        Value[] out = new Value[n];
        for (int j = 0; j < n; j++) {
            Value[] c = new Value[m];
            for (int i = 0; i < m; i++) c[i] = e[i][j];
            out[j] = new TupleValue(c);
        }
        return new TupleValue(out);
    }

    @TLAPlusOperator(identifier = "RMatVec", module = "RealArith", warn = false)
    public static Value RMatVec(Value x, Value y) {
        BigInteger[][] a = mat(x);
        BigInteger[] v = bigs(y);
        BigInteger[] r = new BigInteger[a.length];
        for (int i = 0; i < r.length; i++) r[i] = dot(a[i], v);
        return vec(r);
    }

    @TLAPlusOperator(identifier = "RMatMul", module = "RealArith", warn = false)
    public static Value RMatMul(Value x, Value y) {
        BigInteger[][] a = mat(x), b = transpose(mat(y));
        BigInteger[][] r = new BigInteger[a.length][b.length];
        for (int i = 0; i < a.length; i++) for (int j = 0; j < b.length; j++) r[i][j] = dot(a[i], b[j]);
        return matv(r);
    }

    /** Number of negative pivots of the LDL^T elimination of the symmetric matrix A - s I
     *  (Sylvester: the number of eigenvalues below s); -1 if a pivot vanishes. */
    @TLAPlusOperator(identifier = "RInertia", module = "RealArith", warn = false)
    public static Value RInertia(Value x, Value s) {
        BigInteger[][] a = mat(x);
        BigInteger sh = big(s);
        int n = a.length, neg = 0;
        BigInteger eps = BigInteger.ONE.shiftLeft(S - 120);
        if (sh == null) return IntValue.gen(-1);
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < n; j++) if (a[i][j] == null) return IntValue.gen(-1);
            a[i][i] = a[i][i].subtract(sh);
        }
        for (int k = 0; k < n; k++) {
            BigInteger p = a[k][k];
            if (p.abs().compareTo(eps) < 0) return IntValue.gen(-1);
            if (p.signum() < 0) neg++;
            for (int i = k + 1; i < n; i++) {
                if (a[i][k].signum() == 0) continue;
                BigInteger f = a[i][k].shiftLeft(S).divide(p);
                for (int j = k; j < n; j++)
                    if (a[k][j].signum() != 0) a[i][j] = a[i][j].subtract(rsh(f.multiply(a[k][j]), S));
            }
        }
        return IntValue.gen(neg);
    }

    static BigInteger expS(BigInteger a) {
        // exp(a / 2^S) * 2^S
        BigInteger x = a.shiftLeft(G);
        int sc = S + G;
        BigInteger ln2 = ln2(sc);
        BigInteger k = x.divide(ln2);
        if (x.signum() < 0) k = k.subtract(BigInteger.ONE);
        if (k.bitLength() > 20) return k.signum() < 0 ? BigInteger.ZERO : null;
        int ki = k.intValue();
        if (ki < -S - 8) return BigInteger.ZERO;
        if (ki > 4000) return null;
        BigInteger r = x.subtract(k.multiply(ln2));
        BigInteger term = BigInteger.ONE.shiftLeft(sc), sum = term;
        for (int i = 1; i < 400; i++) {
            term = term.multiply(r).shiftRight(sc).divide(BigInteger.valueOf(i));
            if (term.signum() == 0) break;
            sum = sum.add(term);
        }
        int sh = ki - G;
        return sh >= 0 ? sum.shiftLeft(sh) : rsh(sum, -sh);
    }

    static BigInteger LN2; static int LN2S;
    static synchronized BigInteger ln2(int sc) {
        if (LN2 == null || LN2S != sc) {
            // 2 atanh(1/3)
            BigInteger t = BigInteger.ONE.shiftLeft(sc + 1).divide(BigInteger.valueOf(3)), sum = t;
            for (int k = 3; t.signum() != 0; k += 2) {
                t = t.divide(BigInteger.valueOf(9));
                sum = sum.add(t.divide(BigInteger.valueOf(k)));
            }
            LN2 = sum; LN2S = sc;
        }
        return LN2;
    }

    @TLAPlusOperator(identifier = "RExp", module = "RealArith", warn = false)
    public static Value RExp(Value x) { BigInteger a = big(x); return a == null ? NAN : mk(expS(a)); }

    @TLAPlusOperator(identifier = "RLn", module = "RealArith", warn = false)
    public static Value RLn(Value x) {
        BigInteger a = big(x);
        if (a == null || a.signum() <= 0) return NAN;
        int sc = S + G;
        int k = a.bitLength() - S;                       // a = m * 2^k, 1/2 <= m < 1
        BigInteger m = k - G <= 0 ? a.shiftLeft(G - k) : a.shiftRight(k - G);
        BigInteger one = BigInteger.ONE.shiftLeft(sc);
        // ln m = 2 atanh((m-1)/(m+1))
        BigInteger y = m.subtract(one).shiftLeft(sc).divide(m.add(one));
        BigInteger y2 = y.multiply(y).shiftRight(sc), t = y, sum = y;
        for (int i = 3; i < 2000; i += 2) {
            t = t.multiply(y2).shiftRight(sc);
            if (t.abs().bitLength() <= 2) break;
            sum = sum.add(t.divide(BigInteger.valueOf(i)));
        }
        return mk(rsh(sum.shiftLeft(1).add(ln2(sc).multiply(BigInteger.valueOf(k))), G));
    }

    @TLAPlusOperator(identifier = "RSqrt", module = "RealArith", warn = false)
    public static Value RSqrt(Value x) {
        BigInteger a = big(x);
        if (a == null || a.signum() < 0) return NAN;
        return mk(a.shiftLeft(S).sqrt());
    }

    static BigInteger atanInv(int n, int sc) {
        BigInteger t = BigInteger.ONE.shiftLeft(sc).divide(BigInteger.valueOf(n)), sum = t;
        BigInteger n2 = BigInteger.valueOf((long) n * n);
        for (int k = 3, s = -1; t.signum() != 0; k += 2, s = -s) {
            t = t.divide(n2);
            BigInteger q = t.divide(BigInteger.valueOf(k));
            sum = s > 0 ? sum.add(q) : sum.subtract(q);
        }
        return sum;
    }

    @TLAPlusOperator(identifier = "RPi", module = "RealArith", warn = false)
    public static Value RPi() {
        int sc = S + G;
        BigInteger p = atanInv(5, sc).multiply(BigInteger.valueOf(16)).subtract(atanInv(239, sc).multiply(BigInteger.valueOf(4)));
        return mk(rsh(p, G));
    }

    @TLAPlusOperator(identifier = "RFloor", module = "RealArith", warn = false)
    public static Value RFloor(Value x) {
        BigInteger a = big(x);
        if (a == null) return IntValue.gen(Integer.MIN_VALUE);
        BigInteger q = a.shiftRight(S);
        if (q.bitLength() > 31) return IntValue.gen(q.signum() < 0 ? Integer.MIN_VALUE : Integer.MAX_VALUE);
        return IntValue.gen(q.intValue());
    }

    @TLAPlusOperator(identifier = "RShow", module = "RealArith", warn = false)
    public static Value RShow(Value x) {
        BigInteger a = big(x);
        if (a == null) return new StringValue("undefined");
        BigDecimal d = new BigDecimal(a).divide(new BigDecimal(ONE), 60, java.math.RoundingMode.HALF_EVEN);
        return new StringValue(d.round(new java.math.MathContext(17)).toString());
    }
}
