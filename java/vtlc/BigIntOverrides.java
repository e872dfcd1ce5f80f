package vtlc;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * TLC evaluation accelerators for spec/BigInt.tla. Every operator below has a pure TLA+
 * definition in that module; spec/MCBigInt.tla compares the two.
 * Representation: <<sgn, l0, l1, ...>> little-endian limbs in base 2^15, no leading zero limb,
 * <<0>> for zero.
 */
public final class BigIntOverrides {
    static final int W = 15;

    /** a normalised tuple that remembers the number it denotes */
    static final class Big extends TupleValue {
        final BigInteger v;
        Big(Value[] e, BigInteger v) { super(e); this.v = v; }
    }

    static final IntValue[] SMALL = new IntValue[1 << W];
    static {
        for (int i = 0; i < SMALL.length; i++) SMALL[i] = IntValue.gen(i);
    }
    static final IntValue MINUS1 = IntValue.gen(-1);

    static Value wrap(BigInteger b) {
        final int s = b.signum();
        if (s == 0) return new Big(new Value[] { SMALL[0] }, BigInteger.ZERO);
        final byte[] mag = b.abs().toByteArray();
        final int bits = b.abs().bitLength();
        final int n = (bits + W - 1) / W;
        final Value[] e = new Value[n + 1];
        e[0] = s > 0 ? SMALL[1] : MINUS1;
        int acc = 0, have = 0, k = mag.length - 1;
        for (int i = 1; i <= n; i++) {
            while (have < W && k >= 0) { acc |= (mag[k--] & 0xff) << have; have += 8; }
            e[i] = SMALL[acc & ((1 << W) - 1)];
            acc >>>= W; have -= W;
            if (have < 0) have = 0;
        }
        return new Big(e, b);
    }

    static int i32(Value v) { return ((IntValue) v).val; }

    static BigInteger un(Value x) {
        if (x instanceof Big) return ((Big) x).v;
        final TupleValue t = (TupleValue) x.toTuple();
        final Value[] e = t.elems;
        final int s = i32(e[0]);
        if (s == 0) return BigInteger.ZERO;
        final int n = e.length - 1;
        if (n <= 4) {
            long m = 0;
            for (int i = n; i >= 1; i--) m = (m << W) | i32(e[i]);
            return BigInteger.valueOf(s < 0 ? -m : m);
        }
        final byte[] mag = new byte[(n * W + 7) / 8 + 1];
        long acc = 0; int have = 0, p = mag.length - 1;
        for (int i = 1; i <= n; i++) {
            acc |= ((long) i32(e[i])) << have; have += W;
            while (have >= 8) { mag[p--] = (byte) acc; acc >>>= 8; have -= 8; }
        }
        if (have > 0) mag[p] = (byte) acc;
        return new BigInteger(s, mag);
    }

    @TLAPlusOperator(identifier = "BFromInt", module = "BigInt", warn = false)
    public static Value fromInt(final IntValue a) { return wrap(BigInteger.valueOf(a.val)); }

    @TLAPlusOperator(identifier = "BToInt", module = "BigInt", warn = false)
    public static Value toInt(final Value a) { return IntValue.gen(un(a).intValueExact()); }

    @TLAPlusOperator(identifier = "BAdd", module = "BigInt", warn = false)
    public static Value add(final Value a, final Value b) { return wrap(un(a).add(un(b))); }

    @TLAPlusOperator(identifier = "BSub", module = "BigInt", warn = false)
    public static Value sub(final Value a, final Value b) { return wrap(un(a).subtract(un(b))); }

    @TLAPlusOperator(identifier = "BMul", module = "BigInt", warn = false)
    public static Value mul(final Value a, final Value b) { return wrap(un(a).multiply(un(b))); }

    /** floor division, b > 0 */
    @TLAPlusOperator(identifier = "BDiv", module = "BigInt", warn = false)
    public static Value div(final Value a, final Value b) {
        final BigInteger d = un(b);
        if (d.signum() <= 0) throw new ArithmeticException("BDiv by a number that is not positive");
        final BigInteger[] qr = un(a).divideAndRemainder(d);
        return wrap(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
    }

    /** the remainder of floor division, 0 <= r < b */
    @TLAPlusOperator(identifier = "BMod", module = "BigInt", warn = false)
    public static Value mod(final Value a, final Value b) {
        final BigInteger d = un(b);
        if (d.signum() <= 0) throw new ArithmeticException("BMod by a number that is not positive");
        return wrap(un(a).mod(d));
    }

    @TLAPlusOperator(identifier = "BShl", module = "BigInt", warn = false)
    public static Value shl(final Value a, final IntValue n) {
        if (n.val < 0) throw new ArithmeticException("BShl by a negative count");
        return wrap(un(a).shiftLeft(n.val));
    }

    /** floor shift */
    @TLAPlusOperator(identifier = "BShr", module = "BigInt", warn = false)
    public static Value shr(final Value a, final IntValue n) {
        if (n.val < 0) throw new ArithmeticException("BShr by a negative count");
        return wrap(un(a).shiftRight(n.val));
    }

    @TLAPlusOperator(identifier = "BCmp", module = "BigInt", warn = false)
    public static Value cmp(final Value a, final Value b) { return IntValue.gen(un(a).compareTo(un(b))); }

    @TLAPlusOperator(identifier = "BLen", module = "BigInt", warn = false)
    public static Value len(final Value a) { return IntValue.gen(un(a).abs().bitLength()); }

    @TLAPlusOperator(identifier = "BIsqrt", module = "BigInt", warn = false)
    public static Value isqrt(final Value a) { return wrap(un(a).sqrt()); }

    @TLAPlusOperator(identifier = "BTz", module = "BigInt", warn = false)
    public static Value tz(final Value a) {
        final BigInteger x = un(a);
        return IntValue.gen(x.signum() == 0 ? 0 : x.getLowestSetBit());
    }

    /** x^n mod m, n >= 0 a machine integer, m > 0 */
    @TLAPlusOperator(identifier = "BPowMod", module = "BigInt", warn = false)
    public static Value powMod(final Value a, final IntValue n, final Value m) {
        return wrap(un(a).modPow(BigInteger.valueOf(n.val), un(m)));
    }
}
