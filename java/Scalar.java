import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

/** TLC override of module Scalar: arithmetic on big rationals and real balls. */
public class Scalar {
    static final double EPS = Math.scalb(1.0, -48);
    static final int CAPBITS = 6000;

    static final class N {
        int k; // 0 exact, 1 ball, 2 undef, 3 unk
        BigInteger n, d;
        double m, r;
    }

    static final N UNDEF = mk(2), UNK = mk(3);

    static N mk(int k) { N x = new N(); x.k = k; return x; }

    static N q(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return UNDEF;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
        N x = mk(0); x.n = n; x.d = d;
        if (n.bitLength() > CAPBITS || d.bitLength() > CAPBITS) return toBall(x);
        return x;
    }

    static N ball(double m, double r) {
        if (Double.isNaN(m) || Double.isInfinite(m) || Double.isNaN(r) || Double.isInfinite(r)) return UNK;
        if (Math.abs(m) > 1e200) return UNK;
        N x = mk(1); x.m = m; x.r = Math.abs(r) + 1e-290; return x;
    }

    static double dbl(N x) {
        return new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(25)).doubleValue();
    }

    static N toBall(N x) {
        if (x.k != 0) return x;
        double v = dbl(x);
        return ball(v, Math.abs(v) * EPS);
    }

    static N parse(String s) {
        if (s.equals("undef")) return UNDEF;
        if (s.equals("unk")) return UNK;
        if (s.charAt(0) == '~') {
            int at = s.indexOf('@');
            N x = mk(1);
            x.m = Double.parseDouble(s.substring(1, at));
            x.r = Double.parseDouble(s.substring(at + 1));
            return x;
        }
        int sl = s.indexOf('/');
        N x = mk(0);
        if (sl < 0) { x.n = new BigInteger(s); x.d = BigInteger.ONE; }
        else { x.n = new BigInteger(s.substring(0, sl)); x.d = new BigInteger(s.substring(sl + 1)); }
        return x;
    }

    static String fmt(N x) {
        switch (x.k) {
            case 0: return x.d.equals(BigInteger.ONE) ? x.n.toString() : x.n + "/" + x.d;
            case 1: return "~" + x.m + "@" + x.r;
            case 2: return "undef";
            default: return "unk";
        }
    }

    static N p(Value v) { return parse(str(v)); }
    static String str(Value v) { return ((StringValue) v).val.toString(); }
    static Value w(N x) { return new StringValue(fmt(x)); }
    static Value s(String x) { return new StringValue(x); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static N bad(N a, N c) {
        if (a.k == 2 || c.k == 2) return UNDEF;
        if (a.k == 3 || c.k == 3) return UNK;
        return null;
    }

    static boolean zero(N a) { return a.k == 0 && a.n.signum() == 0; }

    static N add(N a, N c) {
        N z = bad(a, c); if (z != null) return z;
        if (a.k == 0 && c.k == 0) return q(a.n.multiply(c.d).add(c.n.multiply(a.d)), a.d.multiply(c.d));
        if (zero(a)) return c;
        if (zero(c)) return a;
        a = toBall(a); c = toBall(c);
        double m = a.m + c.m;
        return ball(m, (a.r + c.r + Math.abs(m) * EPS) * (1 + EPS));
    }

    static N neg(N a) {
        if (a.k >= 2) return a;
        if (a.k == 0) return q(a.n.negate(), a.d);
        return ball(-a.m, a.r);
    }

    static N mul(N a, N c) {
        N z = bad(a, c); if (z != null) return z;
        if (a.k == 0 && c.k == 0) return q(a.n.multiply(c.n), a.d.multiply(c.d));
        if (zero(a) || zero(c)) return q(BigInteger.ZERO, BigInteger.ONE);
        a = toBall(a); c = toBall(c);
        double m = a.m * c.m;
        return ball(m, (Math.abs(a.m) * c.r + Math.abs(c.m) * a.r + a.r * c.r + Math.abs(m) * EPS) * (1 + EPS));
    }

    static N div(N a, N c) {
        if (a.k == 2 || c.k == 2) return UNDEF;
        if (zero(c)) return UNDEF;
        N z = bad(a, c); if (z != null) return z;
        if (a.k == 0 && c.k == 0) return q(a.n.multiply(c.d), a.d.multiply(c.n));
        if (c.k == 1 && Math.abs(c.m) <= c.r) return UNK;
        if (zero(a)) return a;
        a = toBall(a); c = toBall(c);
        double m = a.m / c.m, lo = Math.abs(c.m) - c.r;
        if (lo <= 0) return UNK;
        return ball(m, ((a.r + Math.abs(m) * c.r) / lo + Math.abs(m) * EPS) * (1 + 4 * EPS));
    }

    static N exp(N a) {
        if (a.k >= 2) return a;
        if (zero(a)) return q(BigInteger.ONE, BigInteger.ONE);
        a = toBall(a);
        if (Math.abs(a.m) > 400 || a.r > 1) return UNK;
        double v = StrictMath.exp(a.m);
        return ball(v, v * (StrictMath.expm1(a.r) * (1 + EPS) + 4 * EPS));
    }

    static N ln(N a) {
        if (a.k >= 2) return a;
        if (a.k == 0 && a.n.signum() <= 0) return UNDEF;
        if (a.k == 0 && a.n.equals(a.d)) return q(BigInteger.ZERO, BigInteger.ONE);
        N o = a;
        a = toBall(a);
        if (a.m + a.r <= 0) return UNDEF;
        if (a.m - a.r <= 0) return UNK;
        double v = StrictMath.log(a.m);
        return ball(v, a.r / (a.m - a.r) * (1 + EPS) + Math.abs(v) * EPS + 1e-300);
    }

    static N trig(N a, boolean sin) {
        if (a.k >= 2) return a;
        if (zero(a)) return q(sin ? BigInteger.ZERO : BigInteger.ONE, BigInteger.ONE);
        a = toBall(a);
        if (Math.abs(a.m) > 1e9 || a.r > 1) return UNK;
        double v = sin ? StrictMath.sin(a.m) : StrictMath.cos(a.m);
        return ball(v, a.r * (1 + EPS) + EPS);
    }

    static boolean isInt(N a) { return a.k == 0 && a.d.equals(BigInteger.ONE); }

    static N ipow(N a, int n) {
        if (n < 0) return div(q(BigInteger.ONE, BigInteger.ONE), ipow(a, -n));
        if (a.k == 0 && (long) n * Math.max(a.n.bitLength(), a.d.bitLength()) > CAPBITS) a = toBall(a);
        N r = q(BigInteger.ONE, BigInteger.ONE);
        N bse = a;
        while (n > 0) {
            if ((n & 1) == 1) r = mul(r, bse);
            n >>= 1;
            if (n > 0) bse = mul(bse, bse);
        }
        return r;
    }

    static N pow(N a, N c) {
        N z = bad(a, c); if (z != null) return z;
        if (isInt(c) && c.n.bitLength() <= 10) {
            int n = c.n.intValue();
            if (zero(a)) return n > 0 ? a : UNDEF;
            if (n == 0) return (a.k == 1 && Math.abs(a.m) <= a.r) ? UNK : q(BigInteger.ONE, BigInteger.ONE);
            return ipow(a, n);
        }
        if (zero(a)) {
            if (c.k == 0) return c.n.signum() > 0 ? a : UNDEF;
            if (c.m - c.r > 0) return a;
            if (c.m + c.r < 0) return UNDEF;
            return UNK;
        }
        boolean pos = a.k == 0 ? a.n.signum() > 0 : a.m - a.r > 0;
        if (pos) return exp(mul(c, ln(a)));
        if (a.k == 0 && c.k == 0 && !isInt(c)) return UNDEF;
        return UNK;
    }

    static N exactOfDouble(double v) {
        if (Double.isNaN(v) || Double.isInfinite(v)) return UNDEF;
        BigDecimal bd = new BigDecimal(v);
        if (bd.scale() <= 0) return q(bd.toBigIntegerExact(), BigInteger.ONE);
        return q(bd.unscaledValue(), BigInteger.TEN.pow(bd.scale()));
    }

    static double dparse(String s) {
        if (s.equals("inf")) return Double.POSITIVE_INFINITY;
        if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
        if (s.equals("nan")) return Double.NaN;
        return Double.parseDouble(s);
    }

    static String dfmt(double v) {
        if (Double.isNaN(v)) return "nan";
        if (Double.isInfinite(v)) return v > 0 ? "inf" : "-inf";
        return Double.toString(v);
    }

    // ---- overrides -------------------------------------------------------------------
    public static Value SAdd(Value a, Value c) { return w(add(p(a), p(c))); }
    public static Value SSub(Value a, Value c) { return w(add(p(a), neg(p(c)))); }
    public static Value SMul(Value a, Value c) { return w(mul(p(a), p(c))); }
    public static Value SDiv(Value a, Value c) { return w(div(p(a), p(c))); }
    public static Value SNeg(Value a) { return w(neg(p(a))); }
    public static Value SSin(Value a) { return w(trig(p(a), true)); }
    public static Value SCos(Value a) { return w(trig(p(a), false)); }
    public static Value SExp(Value a) { return w(exp(p(a))); }
    public static Value SLn(Value a) { return w(ln(p(a))); }
    public static Value SPow(Value a, Value c) { return w(pow(p(a), p(c))); }
    public static Value SPi() { return w(ball(Math.PI, 4e-16)); }
    public static Value SE() { return w(ball(Math.E, 4e-16)); }
    public static Value SInt(Value i) { return s(Integer.toString(((IntValue) i).val)); }

    public static Value SStr(Value v) {
        String t = str(v);
        if (t.startsWith("!")) t = t.substring(1);
        int sl = t.indexOf('/');
        if (sl < 0) return w(q(new BigInteger(t), BigInteger.ONE));
        return w(q(new BigInteger(t.substring(0, sl)), new BigInteger(t.substring(sl + 1))));
    }

    public static Value SReal(Value v) {
        double d = dparse(str(v));
        if (Double.isNaN(d) || Double.isInfinite(d)) return w(UNDEF);
        return w(ball(d, Math.abs(d) * Math.scalb(1.0, -46)));
    }

    public static Value SDyad(Value v) { return w(exactOfDouble(dparse(str(v)))); }
    public static Value SF32(Value v) { return w(exactOfDouble((double) Float.parseFloat(str(v)))); }

    public static Value SFloat(Value a) {
        N x = p(a);
        return s(x.k == 0 ? dfmt(dbl(x)) : x.k == 1 ? dfmt(x.m) : "nan");
    }

    // Environments: fixed exact values per (environment, variable name).
    static final String[][] ENV = {
        // 1: generic positive,  2: generic mixed,  3: small integers,  4: in (0,1),  5: larger,  6: x = 0
        {"x", "17/11", "-7/5", "2", "3/8", "29/7", "0"},
        {"y", "23/9", "19/13", "-3", "5/9", "-31/8", "17/13"},
        {"z", "13/7", "-11/6", "1", "2/7", "37/9", "-5/11"},
        {"a", "5/3", "9/4", "3", "7/8", "-6/5", "0"},
        {"b", "21/10", "-8/3", "-1", "1/5", "41/12", "8/3"},
        {"t", "9/7", "6/5", "0", "4/11", "-25/9", "3/7"},
        {"u", "11/8", "-13/9", "-2", "6/13", "17/6", "0"},
    };

    static N var(int i, String v) {
        if (i >= 1 && i <= 6)
            for (String[] e : ENV) if (e[0].equals(v)) return parse(e[i]);
        int h = 17;
        for (char c : v.toCharArray()) h = h * 31 + c;
        h = h * 7919 + i * 104729;
        h ^= (h >>> 13); h *= 0x5bd1e995; h ^= (h >>> 15);
        int a = Math.floorMod(h, 97) + 2;
        int d = Math.floorMod(h >>> 9, 23) + 31;
        if (i == 3) return q(BigInteger.valueOf(a % 7 - 3), BigInteger.ONE);
        if (i == 4) return q(BigInteger.valueOf(Math.floorMod(h, 29) + 1), BigInteger.valueOf(d));
        if (i == 1) return q(BigInteger.valueOf(a + 30), BigInteger.valueOf(d));
        return q(BigInteger.valueOf((h & 256) == 0 ? a : -a), BigInteger.valueOf(d));
    }

    public static Value SVar(Value i, Value v) { return w(var(((IntValue) i).val, str(v))); }

    public static Value SVarB(Value i, Value v) {
        return w(toBall(var(((IntValue) i).val, str(v))));
    }

    public static Value SIsDef(Value a) { return b(p(a).k <= 1); }
    public static Value SIsUndef(Value a) { return b(p(a).k == 2); }
    public static Value SIsExact(Value a) { return b(p(a).k == 0); }
    public static Value SIsInt(Value a) { return b(isInt(p(a))); }
    public static Value SIsZero(Value a) { return b(zero(p(a))); }

    public static Value SNonZero(Value a) {
        N x = p(a);
        return b(x.k == 0 ? x.n.signum() != 0 : x.k == 1 && Math.abs(x.m) > x.r);
    }

    static final double SLACK = Math.scalb(1.0, -38);

    public static Value SDiffer(Value a, Value c) {
        N x = p(a), y = p(c);
        if (x.k > 1 || y.k > 1) return b(false);
        if (x.k == 0 && y.k == 0) return b(!(x.n.equals(y.n) && x.d.equals(y.d)));
        x = toBall(x); y = toBall(y);
        if (x.k > 1 || y.k > 1) return b(false);
        double tol = 4 * (x.r + y.r) + SLACK * Math.max(Math.abs(x.m), Math.abs(y.m));
        return b(Math.abs(x.m - y.m) > tol);
    }

    public static Value SSign(Value a) {
        N x = p(a);
        int r = 2;
        if (x.k == 0) r = x.n.signum();
        else if (x.k == 1) r = x.m - x.r > 0 ? 1 : x.m + x.r < 0 ? -1 : 2;
        return IntValue.gen(r);
    }

    public static Value SLt(Value a, Value c) {
        N x = p(a), y = p(c);
        if (x.k > 1 || y.k > 1) return b(false);
        if (x.k == 0 && y.k == 0) return b(x.n.multiply(y.d).compareTo(y.n.multiply(x.d)) < 0);
        x = toBall(x); y = toBall(y);
        if (x.k > 1 || y.k > 1) return b(false);
        return b(x.m + x.r < y.m - y.r);
    }

    public static Value SAbs(Value a) {
        N x = p(a);
        if (x.k == 0) return w(x.n.signum() < 0 ? neg(x) : x);
        if (x.k == 1) return w(ball(Math.abs(x.m), x.r));
        return w(x);
    }

    // components of a literal as written, without reduction
    public static Value SRawN(Value a) {
        String t = str(a).replace("!", "").replace("-", "");
        int sl = t.indexOf('/');
        return s(sl < 0 ? t : t.substring(0, sl));
    }
    public static Value SRawD(Value a) {
        String t = str(a);
        int sl = t.indexOf('/');
        return s(sl < 0 ? "1" : t.substring(sl + 1));
    }
    public static Value SRawSign(Value a) {
        String t = str(a);
        return IntValue.gen(t.startsWith("!") ? 0 : t.startsWith("-") ? -1 : 1);
    }
    public static Value SNum(Value a) { N x = p(a); return s(x.n.toString()); }
    public static Value SDen(Value a) { N x = p(a); return s(x.d.toString()); }
    public static Value SToInt(Value a) { N x = p(a); return IntValue.gen(x.n.intValueExact()); }

    public static Value FAdd(Value a, Value c) { return s(dfmt(dparse(str(a)) + dparse(str(c)))); }
    public static Value FSub(Value a, Value c) { return s(dfmt(dparse(str(a)) - dparse(str(c)))); }
    public static Value FMul(Value a, Value c) { return s(dfmt(dparse(str(a)) * dparse(str(c)))); }
    public static Value FDiv(Value a, Value c) { return s(dfmt(dparse(str(a)) / dparse(str(c)))); }
    public static Value FNeg(Value a) { return s(dfmt(-dparse(str(a)))); }
    public static Value FOfRat(Value a) { N x = p(a); return s(x.k == 0 ? dfmt(dbl(x)) : "nan"); }

    public static Value FShow3(Value a) {
        double d = dparse(str(a));
        String t;
        if (Double.isNaN(d)) t = "NaN";
        else if (Double.isInfinite(d)) t = d > 0 ? "inf" : "-inf";
        else {
            t = new BigDecimal(d).setScale(3, RoundingMode.HALF_EVEN).toPlainString();
            if ((d < 0 || (d == 0 && 1 / d < 0)) && !t.startsWith("-")) t = "-" + t;
        }
        return charsOf(t);
    }

    static Value charsOf(String t) {
        int n = t.codePointCount(0, t.length());
        Value[] v = new Value[n];
        int j = 0;
        for (int i = 0; i < t.length(); ) {
            int cp = t.codePointAt(i);
            v[j++] = new StringValue(new String(Character.toChars(cp)));
            i += Character.charCount(cp);
        }
        return new TupleValue(v);
    }

    public static Value StrChars(Value a) { return charsOf(str(a)); }

    public static Value CharsStr(Value a) {
        TupleValue t = (TupleValue) a.toTuple();
        StringBuilder sb = new StringBuilder();
        for (Value v : t.elems) sb.append(str(v));
        return s(sb.toString());
    }

    public static Value IsDigit(Value a) { String t = str(a); return b(t.length() == 1 && t.charAt(0) >= '0' && t.charAt(0) <= '9'); }
    public static Value IsAlpha(Value a) { String t = str(a); return b(!t.isEmpty() && Character.isLetter(t.codePointAt(0))); }
}
