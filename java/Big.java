import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC module override for Big.tla: exact decimal arithmetic on numerals held in
 * TLA+ strings.  Add/Sub/Mul/Neg/Cmp are exact; Div, Sqrt, Ln, Exp, Pow, Log10
 * are correctly evaluated to 60 significant digits.  "NaN" absorbs.
 */
public class Big {
    static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
    static final MathContext MCI = new MathContext(80, RoundingMode.HALF_EVEN);
    static final String NAN = "NaN";

    private static String str(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).getVal().toString();
        if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
        throw new RuntimeException("Big: not a numeral: " + v);
    }
    private static BigDecimal dec(Value v) {
        if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
        String s = str(v);
        if (s.isEmpty()) return null;
        char c = s.charAt(s.length() - 1);
        if (c < '0' || c > '9') { if (c != '.') return null; }
        try { return new BigDecimal(s); } catch (NumberFormatException e) { return null; }
    }
    private static Value num(BigDecimal d) {
        if (d == null) return new StringValue(UniqueString.uniqueStringOf(NAN));
        if (d.signum() == 0) return new StringValue(UniqueString.uniqueStringOf("0"));
        d = d.stripTrailingZeros();
        if (d.precision() > 400) d = d.round(new MathContext(300)).stripTrailingZeros();
        String s = d.scale() > -40 && d.scale() < 40 ? d.toPlainString() : d.toString();
        return new StringValue(UniqueString.uniqueStringOf(s));
    }
    private static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value DIsNum(Value a) { return bool(dec(a) != null); }
    public static Value DNorm(Value a) { return num(dec(a)); }
    public static Value DAdd(Value a, Value b) {
        BigDecimal x = dec(a), y = dec(b);
        return num(x == null || y == null ? null : x.add(y));
    }
    public static Value DSub(Value a, Value b) {
        BigDecimal x = dec(a), y = dec(b);
        return num(x == null || y == null ? null : x.subtract(y));
    }
    public static Value DMul(Value a, Value b) {
        BigDecimal x = dec(a), y = dec(b);
        return num(x == null || y == null ? null : x.multiply(y));
    }
    public static Value DDiv(Value a, Value b) {
        BigDecimal x = dec(a), y = dec(b);
        return num(x == null || y == null || y.signum() == 0 ? null : x.divide(y, MC));
    }
    public static Value DNeg(Value a) { BigDecimal x = dec(a); return num(x == null ? null : x.negate()); }
    public static Value DAbs(Value a) { BigDecimal x = dec(a); return num(x == null ? null : x.abs()); }
    public static Value DLt(Value a, Value b) {
        BigDecimal x = dec(a), y = dec(b);
        return bool(x != null && y != null && x.compareTo(y) < 0);
    }
    public static Value DLe(Value a, Value b) {
        BigDecimal x = dec(a), y = dec(b);
        return bool(x != null && y != null && x.compareTo(y) <= 0);
    }
    public static Value DEq(Value a, Value b) {
        BigDecimal x = dec(a), y = dec(b);
        return bool(x != null && y != null && x.compareTo(y) == 0);
    }
    /** floor as an integer numeral */
    public static Value DFloor(Value a) {
        BigDecimal x = dec(a);
        return num(x == null ? null : x.setScale(0, RoundingMode.FLOOR));
    }
    /** decimal -> TLC int (must fit) */
    public static Value DToInt(Value a) {
        return IntValue.gen(dec(a).intValueExact());
    }
    /** |a - b| <= rel * max(|a|,|b|,scale) */
    public static Value DClose(Value a, Value b, Value rel, Value scale) {
        BigDecimal x = dec(a), y = dec(b), r = dec(rel), s = dec(scale);
        if (x == null || y == null || r == null || s == null) return BoolValue.ValFalse;
        BigDecimal m = x.abs().max(y.abs()).max(s.abs());
        return bool(x.subtract(y).abs().compareTo(r.multiply(m)) <= 0);
    }
    /** numeral with exactly n decimals, HALF_EVEN (python's '%.nf') */
    public static Value DFixed(Value a, Value n) {
        BigDecimal x = dec(a);
        if (x == null) return new StringValue(UniqueString.uniqueStringOf(NAN));
        String s = x.setScale(((IntValue) n).val, RoundingMode.HALF_EVEN).toPlainString();
        return new StringValue(UniqueString.uniqueStringOf(s));
    }

    public static Value DSqrt(Value a) {
        BigDecimal x = dec(a);
        return num(x == null || x.signum() < 0 ? null : x.sqrt(MC));
    }
    private static BigDecimal LN10 = null, LN2 = null;
    private static BigDecimal atanhSeries(BigDecimal z) { // 2*atanh(z)
        BigDecimal z2 = z.multiply(z, MCI), t = z, s = z;
        BigDecimal eps = new BigDecimal(BigInteger.ONE, 90);
        for (int k = 3; ; k += 2) {
            t = t.multiply(z2, MCI);
            BigDecimal d = t.divide(BigDecimal.valueOf(k), MCI);
            s = s.add(d, MCI);
            if (d.abs().compareTo(eps) < 0) break;
        }
        return s.multiply(BigDecimal.valueOf(2), MCI);
    }
    private static BigDecimal ln2() {
        if (LN2 == null) LN2 = atanhSeries(BigDecimal.ONE.divide(BigDecimal.valueOf(3), MCI));
        return LN2;
    }
    private static BigDecimal ln10() {
        if (LN10 == null) // ln 10 = 3 ln 2 + ln(10/8)
            LN10 = ln2().multiply(BigDecimal.valueOf(3)).add(
                atanhSeries(BigDecimal.ONE.divide(BigDecimal.valueOf(9), MCI)));
        return LN10;
    }
    static BigDecimal ln(BigDecimal x) {
        // x = m * 10^e, m in [1,10); m = n * 2^k with n in [0.75,1.5)
        int e = x.precision() - x.scale() - 1;
        BigDecimal m = x.movePointLeft(e);
        int k = 0;
        BigDecimal lim = new BigDecimal("1.5"), two = BigDecimal.valueOf(2);
        while (m.compareTo(lim) >= 0) { m = m.divide(two, MCI); k++; }
        BigDecimal z = m.subtract(BigDecimal.ONE).divide(m.add(BigDecimal.ONE), MCI);
        BigDecimal r = z.signum() == 0 ? BigDecimal.ZERO : atanhSeries(z);
        return r.add(ln2().multiply(BigDecimal.valueOf(k)), MCI)
                .add(ln10().multiply(BigDecimal.valueOf(e)), MCI);
    }
    static BigDecimal exp(BigDecimal x) {
        if (x.abs().compareTo(BigDecimal.valueOf(200000)) > 0)
            return x.signum() < 0 ? BigDecimal.ZERO : null;
        // x = n ln10 + r
        BigDecimal n = x.divide(ln10(), MCI).setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal r = x.subtract(n.multiply(ln10()), MCI);
        r = r.divide(BigDecimal.valueOf(64), MCI);
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
        BigDecimal eps = new BigDecimal(BigInteger.ONE, 90);
        for (int k = 1; k < 200; k++) {
            t = t.multiply(r, MCI).divide(BigDecimal.valueOf(k), MCI);
            s = s.add(t, MCI);
            if (t.abs().compareTo(eps) < 0) break;
        }
        for (int i = 0; i < 6; i++) s = s.multiply(s, MCI);
        return s.movePointRight(n.intValueExact());
    }
    public static Value DLn(Value a) {
        BigDecimal x = dec(a);
        return num(x == null || x.signum() <= 0 ? null : ln(x).round(MC));
    }
    public static Value DLog10(Value a) {
        BigDecimal x = dec(a);
        return num(x == null || x.signum() <= 0 ? null : ln(x).divide(ln10(), MC));
    }
    public static Value DExp(Value a) {
        BigDecimal x = dec(a);
        BigDecimal r = x == null ? null : exp(x);
        return num(r == null ? null : r.round(MC));
    }
    /** a ** b for a >= 0, or integer b */
    public static Value DPow(Value a, Value b) {
        BigDecimal x = dec(a), y = dec(b);
        if (x == null || y == null) return num(null);
        BigDecimal ys = y.stripTrailingZeros();
        if (ys.scale() <= 0 && ys.abs().compareTo(BigDecimal.valueOf(4096)) <= 0) {
            int n = ys.intValueExact();
            if (n == 0) return num(BigDecimal.ONE);
            if (x.signum() == 0) return num(n > 0 ? BigDecimal.ZERO : null);
            BigDecimal r = x.pow(Math.abs(n), MCI);
            return num(n > 0 ? r.round(MC) : BigDecimal.ONE.divide(r, MC));
        }
        if (x.signum() < 0) return num(null);
        if (x.signum() == 0) return num(y.signum() > 0 ? BigDecimal.ZERO : null);
        BigDecimal r = exp(ln(x).multiply(y, MCI));
        return num(r == null ? null : r.round(MC));
    }
    /** sum of a sequence of numerals, exactly */
    public static Value DSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        BigDecimal r = BigDecimal.ZERO;
        for (Value v : t.elems) { BigDecimal x = dec(v); if (x == null) return num(null); r = r.add(x); }
        return num(r);
    }
    /** sum of x[i]*y[i], exactly */
    public static Value DDot(Value xs, Value ys) {
        TupleValue t = (TupleValue) xs.toTuple(), u = (TupleValue) ys.toTuple();
        BigDecimal r = BigDecimal.ZERO;
        for (int i = 0; i < t.elems.length; i++) {
            BigDecimal x = dec(t.elems[i]), y = dec(u.elems[i]);
            if (x == null || y == null) return num(null);
            r = r.add(x.multiply(y));
        }
        return num(r);
    }
    // --- strings (TLA+ strings are opaque to TLC) -------------------------
    /** Seq of one-character strings */
    public static Value SChars(Value s) {
        String x = str(s);
        Value[] r = new Value[x.length()];
        for (int i = 0; i < r.length; i++)
            r[i] = new StringValue(UniqueString.uniqueStringOf(x.substring(i, i + 1)));
        return new TupleValue(r);
    }
    public static Value SPrefix(Value p, Value s) { return bool(str(s).startsWith(str(p))); }
    public static Value SSuffix(Value p, Value s) { return bool(str(s).endsWith(str(p))); }
    public static Value SLen(Value s) { return IntValue.gen(str(s).length()); }
    /** code point of a one-character string */
    public static Value SOrd(Value s) { return IntValue.gen(str(s).codePointAt(0)); }
    /** lexicographic (code unit) a < b */
    public static Value SLt(Value a, Value b) { return bool(str(a).compareTo(str(b)) < 0); }
    /** characters i..j, 1-based and inclusive */
    public static Value SSub(Value s, Value i, Value j) {
        String t = str(s);
        int a = Math.max(1, ((IntValue) i).val), b = Math.min(t.length(), ((IntValue) j).val);
        return new StringValue(UniqueString.uniqueStringOf(a > b ? "" : t.substring(a - 1, b)));
    }
    /** without leading and trailing blanks, inner runs of blanks made one */
    public static Value STrim(Value s) {
        return new StringValue(UniqueString.uniqueStringOf(str(s).trim().replaceAll("\\s+", " ")));
    }
    public static Value SCat(Value a, Value b) {
        return new StringValue(UniqueString.uniqueStringOf(str(a) + str(b)));
    }
}
