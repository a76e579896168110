import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluates the operators of Rat.tla: exact rational arithmetic on strings. */
public class Rat {
    private static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

    private static BigInteger[] q(Value v) {
        String s = ((StringValue) v).val.toString();
        int k = s.indexOf('/');
        if (k < 0) return new BigInteger[] {new BigInteger(s), ONE};
        return new BigInteger[] {new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1))};
    }

    private static Value mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new ArithmeticException("division by zero");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        BigInteger g = n.gcd(d);
        if (g.signum() != 0 && !g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        return new StringValue(d.equals(ONE) ? n.toString() : n + "/" + d);
    }

    private static int i(Value v) { return ((IntValue) v).val; }

    private static int cmp(Value a, Value b) {
        BigInteger[] x = q(a), y = q(b);
        return x[0].multiply(y[1]).compareTo(y[0].multiply(x[1]));
    }

    public static Value QInt(Value a) { return mk(BigInteger.valueOf(i(a)), ONE); }
    public static Value QAdd(Value a, Value b) {
        BigInteger[] x = q(a), y = q(b);
        return mk(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }
    public static Value QSub(Value a, Value b) {
        BigInteger[] x = q(a), y = q(b);
        return mk(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }
    public static Value QMul(Value a, Value b) {
        BigInteger[] x = q(a), y = q(b);
        return mk(x[0].multiply(y[0]), x[1].multiply(y[1]));
    }
    public static Value QDiv(Value a, Value b) {
        BigInteger[] x = q(a), y = q(b);
        return mk(x[0].multiply(y[1]), x[1].multiply(y[0]));
    }
    public static Value QPow(Value a, Value k) {
        BigInteger[] x = q(a);
        int e = i(k);
        return e >= 0 ? mk(x[0].pow(e), x[1].pow(e)) : mk(x[1].pow(-e), x[0].pow(-e));
    }
    public static Value QNeg(Value a) { BigInteger[] x = q(a); return mk(x[0].negate(), x[1]); }
    public static Value QAbs(Value a) { BigInteger[] x = q(a); return mk(x[0].abs(), x[1]); }
    public static Value QLe(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value QLt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value QMax(Value a, Value b) { return cmp(a, b) >= 0 ? a : b; }
    private static BigInteger floor(BigInteger[] x) {
        BigInteger[] r = x[0].divideAndRemainder(x[1]);
        return r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
    }
    public static Value QFloor(Value a) { return mk(floor(q(a)), ONE); }
    public static Value QToInt(Value a) {
        BigInteger[] x = q(a);
        if (!x[1].equals(ONE)) throw new ArithmeticException("not integral");
        return IntValue.gen(x[0].intValueExact());
    }
    public static Value QFits(Value a) {
        BigInteger[] x = q(a);
        return x[1].equals(ONE) && x[0].bitLength() <= 31 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value QScale(Value a, Value k) {
        BigInteger[] x = q(a);
        BigDecimal v = new BigDecimal(x[0]).scaleByPowerOfTen(i(k)).divide(new BigDecimal(x[1]), 0, RoundingMode.HALF_EVEN);
        return mk(v.toBigInteger(), ONE);
    }

    private static Value[] seq(Value s) { return ((TupleValue) s.toTuple()).elems; }

    private static BigInteger u(Value s, int o, int n) {
        Value[] e = seq(s);
        BigInteger r = ZERO;
        for (int k = 0; k < n; k++) r = r.shiftLeft(8).or(BigInteger.valueOf(i(e[o + k])));
        return r;
    }
    public static Value QBits(Value s, Value k, Value n) {
        Value[] e = seq(s);
        int a = i(k), b = a + i(n);
        BigInteger r = ZERO;
        for (int p = a; p < b; ) {
            int oct = i(e[p / 8]) & 0xff, from = p % 8, to = Math.min(8, from + b - p);
            int part = (oct >> (8 - to)) & ((1 << (to - from)) - 1);
            r = r.shiftLeft(to - from).or(BigInteger.valueOf(part));
            p += to - from;
        }
        return mk(r, ONE);
    }
    public static Value QU(Value s, Value o, Value n) { return mk(u(s, i(o), i(n)), ONE); }
    public static Value QS(Value s, Value o, Value n) {
        BigInteger r = u(s, i(o), i(n));
        int top = 8 * i(n) - 1;
        return r.testBit(top) ? mk(r.clearBit(top).negate(), ONE) : mk(r, ONE);
    }
    public static Value QF32(Value s, Value o) {
        float f = Float.intBitsToFloat(u(s, i(o), 4).intValue());
        if (Float.isNaN(f)) return new StringValue("nan");
        if (Float.isInfinite(f)) return new StringValue(f > 0 ? "inf" : "-inf");
        BigDecimal d = new BigDecimal((double) f);
        return d.scale() > 0 ? mk(d.unscaledValue(), BigInteger.TEN.pow(d.scale())) : mk(d.toBigIntegerExact(), ONE);
    }
    public static Value QF32Of(Value b) {
        BigInteger[] x = q(b);
        if (x[0].signum() < 0) return new StringValue("nan");
        float f = Float.intBitsToFloat(x[0].intValue());
        if (Float.isNaN(f)) return new StringValue("nan");
        if (Float.isInfinite(f)) return new StringValue(f > 0 ? "inf" : "-inf");
        BigDecimal d = new BigDecimal((double) f);
        return d.scale() > 0 ? mk(d.unscaledValue(), BigInteger.TEN.pow(d.scale())) : mk(d.toBigIntegerExact(), ONE);
    }
    public static Value QF64Of(Value b) {
        BigInteger[] x = q(b);
        double f = Double.longBitsToDouble(x[0].longValue());
        if (Double.isNaN(f)) return new StringValue("nan");
        if (Double.isInfinite(f)) return new StringValue(f > 0 ? "inf" : "-inf");
        BigDecimal d = new BigDecimal(f);
        return d.scale() > 0 ? mk(d.unscaledValue(), BigInteger.TEN.pow(d.scale())) : mk(d.toBigIntegerExact(), ONE);
    }
    public static Value QCrc32(Value s) {
        java.util.zip.CRC32 c = new java.util.zip.CRC32();
        for (Value v : seq(s)) c.update(i(v));
        return mk(BigInteger.valueOf(c.getValue()), ONE);
    }
    public static Value QOctets(Value a, Value n) {
        BigInteger x = q(a)[0];
        int k = i(n);
        Value[] e = new Value[k];
        for (int j = k - 1; j >= 0; j--) { e[j] = IntValue.gen(x.intValue() & 0xff); x = x.shiftRight(8); }
        return new TupleValue(e);
    }
    public static Value QDec(Value a) {
        String t = ((StringValue) a).val.toString();
        if (!t.matches("[+-]?[0-9]+(\\.[0-9]*)?([eE][+-]?[0-9]{1,3})?")) return new StringValue("nan");
        java.math.BigDecimal b = new java.math.BigDecimal(t);
        return b.scale() > 0 ? mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()))
                             : mk(b.unscaledValue().multiply(BigInteger.TEN.pow(-b.scale())), ONE);
    }
    public static Value QSin(Value x, Value d) {
        // Taylor series in fixed point with 10 guard digits
        int digits = i(d) + 10;
        BigInteger s = BigInteger.TEN.pow(digits);
        BigInteger[] xx = q(x);
        BigInteger X = xx[0].multiply(s).divide(xx[1]);
        BigInteger X2 = X.multiply(X).divide(s), t = X, sum = ZERO;
        for (int k = 1; t.signum() != 0; k += 2) {
            sum = sum.add(t);
            t = t.multiply(X2).divide(s).divide(BigInteger.valueOf((long) (k + 1) * (k + 2))).negate();
        }
        return mk(sum.divide(BigInteger.TEN.pow(10)), BigInteger.TEN.pow(i(d)));
    }
    public static Value QLegendreSign(Value n, Value x, Value d) {
        int digits = i(d), deg = i(n);
        BigInteger s = BigInteger.TEN.pow(digits);
        BigInteger[] xx = q(x);
        BigInteger X = xx[0].multiply(s).divide(xx[1]);
        BigInteger p0 = s, p1 = X;
        if (deg == 0) p1 = s;
        for (int k = 2; k <= deg; k++) {
            BigInteger pk = BigInteger.valueOf(2L * k - 1).multiply(X).multiply(p1).divide(s)
                .subtract(BigInteger.valueOf(k - 1).multiply(p0)).divide(BigInteger.valueOf(k));
            p0 = p1;
            p1 = pk;
        }
        // the truncation errors stay far below half of the digits
        BigInteger bound = BigInteger.TEN.pow(digits / 2);
        if (p1.abs().compareTo(bound) <= 0) return IntValue.gen(0);
        return IntValue.gen(p1.signum());
    }

    private static final java.util.Map<String, java.io.RandomAccessFile> FILES = new java.util.HashMap<>();
    private static java.io.RandomAccessFile file(Value p) throws java.io.IOException {
        String n = ((StringValue) p).val.toString();
        java.io.RandomAccessFile f = FILES.get(n);
        if (f == null) { f = new java.io.RandomAccessFile(n, "r"); FILES.put(n, f); }
        return f;
    }
    private static int read(java.io.RandomAccessFile f, long off, byte[] b, int from) throws java.io.IOException {
        if (off < 0 || off >= f.length()) return from;
        f.seek(off);
        int k = from;
        while (k < b.length) {
            int r = f.read(b, k, b.length - k);
            if (r <= 0) break;
            k += r;
        }
        return k;
    }
    public static synchronized Value FBytes(Value path, Value off, Value n) throws java.io.IOException {
        byte[] b = new byte[i(n)];
        BigInteger o = q(off)[0];
        int k = o.bitLength() > 62 ? 0 : read(file(path), o.longValue(), b, 0);
        Value[] e = new Value[k];
        for (int j = 0; j < k; j++) e[j] = IntValue.gen(b[j] & 0xff);
        return new TupleValue(e);
    }
    public static synchronized Value FFind(Value path, Value off) throws java.io.IOException {
        java.io.RandomAccessFile f = file(path);
        long p = q(off)[0].longValue();
        byte[] b = new byte[1 << 16];
        int have = 0;
        while (true) {
            int k = read(f, p + have, b, have);
            for (int j = 0; j + 16 <= k; j++)
                if (b[j] == 'G' && b[j + 1] == 'R' && b[j + 2] == 'I' && b[j + 3] == 'B') return mk(BigInteger.valueOf(p + j), ONE);
            if (k < b.length) return mk(ONE.negate(), ONE);
            have = 15;
            System.arraycopy(b, b.length - 15, b, 0, 15);
            p += b.length - 15;
        }
    }
    public static synchronized Value FLen(Value path) throws java.io.IOException { return mk(BigInteger.valueOf(file(path).length()), ONE); }
}
