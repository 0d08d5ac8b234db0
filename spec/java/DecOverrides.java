import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** 60-digit evaluation of the operators of Dec.tla. */
public class DecOverrides implements ITLCOverrides {
    private static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
    private static final MathContext MX = new MathContext(80, RoundingMode.HALF_EVEN);
    private static final MathContext MO = new MathContext(25, RoundingMode.HALF_EVEN);
    private static final BigDecimal TWO = new BigDecimal(2);

    @Override
    public Class<?>[] get() {
        return new Class<?>[] { DecOverrides.class };
    }

    private static BigDecimal d(Value v) {
        if (v instanceof IntValue) return new BigDecimal(((IntValue) v).val);
        if (v instanceof StringValue) return new BigDecimal(((StringValue) v).val.toString());
        throw new RuntimeException("Dec: not a number: " + v);
    }

    private static Value r(BigDecimal b) {
        b = b.round(MC);
        if (b.signum() == 0) return IntValue.gen(0);
        b = b.stripTrailingZeros();
        if (b.scale() <= 0 && b.abs().compareTo(new BigDecimal(1000000)) < 0) return IntValue.gen(b.intValueExact());
        return new StringValue(b.toString());
    }

    private static Value bool(boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "DAdd", module = "Dec", warn = false)
    public static Value add(final Value a, final Value b) { return r(d(a).add(d(b))); }

    @TLAPlusOperator(identifier = "DSub", module = "Dec", warn = false)
    public static Value sub(final Value a, final Value b) { return r(d(a).subtract(d(b))); }

    @TLAPlusOperator(identifier = "DMul", module = "Dec", warn = false)
    public static Value mul(final Value a, final Value b) { return r(d(a).multiply(d(b))); }

    @TLAPlusOperator(identifier = "DDiv", module = "Dec", warn = false)
    public static Value div(final Value a, final Value b) { return r(d(a).divide(d(b), MC)); }

    @TLAPlusOperator(identifier = "DNeg", module = "Dec", warn = false)
    public static Value neg(final Value a) { return r(d(a).negate()); }

    @TLAPlusOperator(identifier = "DLe", module = "Dec", warn = false)
    public static Value le(final Value a, final Value b) { return bool(d(a).compareTo(d(b)) <= 0); }

    @TLAPlusOperator(identifier = "DLt", module = "Dec", warn = false)
    public static Value lt(final Value a, final Value b) { return bool(d(a).compareTo(d(b)) < 0); }

    @TLAPlusOperator(identifier = "DEq", module = "Dec", warn = false)
    public static Value eq(final Value a, final Value b) { return bool(d(a).compareTo(d(b)) == 0); }

    @TLAPlusOperator(identifier = "DMax", module = "Dec", warn = false)
    public static Value max(final Value a, final Value b) { return r(d(a).max(d(b))); }

    @TLAPlusOperator(identifier = "DMin", module = "Dec", warn = false)
    public static Value min(final Value a, final Value b) { return r(d(a).min(d(b))); }

    @TLAPlusOperator(identifier = "DAbs", module = "Dec", warn = false)
    public static Value abs(final Value a) { return r(d(a).abs()); }

    @TLAPlusOperator(identifier = "DSgn", module = "Dec", warn = false)
    public static Value sgn(final Value a) { return IntValue.gen(d(a).signum()); }

    @TLAPlusOperator(identifier = "DSqrt", module = "Dec", warn = false)
    public static Value sqrt(final Value a) { return r(d(a).sqrt(MC)); }

    @TLAPlusOperator(identifier = "DPow", module = "Dec", warn = false)
    public static Value pow(final Value a, final Value n) {
        int k = ((IntValue) n).val;
        BigDecimal b = d(a);
        return r(k >= 0 ? b.pow(k, MX) : BigDecimal.ONE.divide(b.pow(-k, MX), MC));
    }

    @TLAPlusOperator(identifier = "DSum", module = "Dec", warn = false)
    public static Value sum(final Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        BigDecimal acc = BigDecimal.ZERO;
        for (Value v : t.elems) acc = acc.add(d(v));
        return r(acc);
    }

    @TLAPlusOperator(identifier = "DDot", module = "Dec", warn = false)
    public static Value dot(final Value u, final Value v) {
        Value[] a = ((TupleValue) u.toTuple()).elems, b = ((TupleValue) v.toTuple()).elems;
        if (a.length != b.length) throw new RuntimeException("DDot: lengths differ: " + a.length + " " + b.length);
        BigDecimal acc = BigDecimal.ZERO;
        for (int i = 0; i < a.length; i++) acc = acc.add(d(a[i]).multiply(d(b[i])));
        return r(acc);
    }

    private static Value deep(final Value v) {
        Value t = v.toTuple();
        if (t == null) return v;
        Value[] e = ((TupleValue) t).elems;
        Value[] f = new Value[e.length];
        for (int i = 0; i < e.length; i++) f[i] = deep(e[i]);
        return new TupleValue(f);
    }

    @TLAPlusOperator(identifier = "Force", module = "Dec", warn = false)
    public static Value force(final Value v) { return deep(v); }

    @TLAPlusOperator(identifier = "DFloor", module = "Dec", warn = false)
    public static Value floor(final Value a) { return IntValue.gen(d(a).setScale(0, RoundingMode.FLOOR).intValueExact()); }

    @TLAPlusOperator(identifier = "DOut", module = "Dec", warn = false)
    public static Value out(final Value a) { return new StringValue(d(a).round(MO).toString()); }

    @TLAPlusOperator(identifier = "DExp", module = "Dec", warn = false)
    public static Value exp(final Value a) { return r(expB(d(a))); }

    private static BigDecimal expB(BigDecimal x) {
        int k = 0;
        BigDecimal y = x;
        while (y.abs().compareTo(new BigDecimal("0.01")) > 0) { y = y.divide(TWO, MX); k++; }
        BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) { t = t.multiply(y, MX).divide(new BigDecimal(i), MX); s = s.add(t, MX); }
        for (int i = 0; i < k; i++) s = s.multiply(s, MX);
        return s;
    }

    @TLAPlusOperator(identifier = "DLn", module = "Dec", warn = false)
    public static Value ln(final Value a) {
        BigDecimal x = d(a);
        BigDecimal y = new BigDecimal(Math.log(x.doubleValue()));
        for (int i = 0; i < 6; i++) { // Newton: y += 2 (x - e^y) / (x + e^y)
            BigDecimal e = expB(y);
            y = y.add(TWO.multiply(x.subtract(e)).divide(x.add(e), MX), MX);
        }
        return r(y);
    }

    @TLAPlusOperator(identifier = "DSin", module = "Dec", warn = false)
    public static Value sin(final Value a) { return r(trig(d(a), true)); }

    @TLAPlusOperator(identifier = "DCos", module = "Dec", warn = false)
    public static Value cos(final Value a) { return r(trig(d(a), false)); }

    // Taylor series; the digits lost to cancellation (about 0.43 |x|) are added to the working precision
    private static BigDecimal trig(BigDecimal x, boolean sine) {
        double m = Math.abs(x.doubleValue());
        if (m > 2000) throw new ArithmeticException("angle out of range: " + x);
        MathContext mx = new MathContext(80 + (int) (0.5 * m), RoundingMode.HALF_EVEN);
        BigDecimal t = sine ? x : BigDecimal.ONE, s = t, x2 = x.multiply(x, mx), eps = new BigDecimal("1e-75");
        for (int i = sine ? 1 : 0; i < 2 * m || t.abs().compareTo(eps) > 0; i += 2) {
            t = t.multiply(x2, mx).divide(new BigDecimal((i + 1) * (i + 2)), mx).negate();
            s = s.add(t, mx);
        }
        return s;
    }
}
