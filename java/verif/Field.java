package verif;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Accelerators for the iterated group operations of module Curve and the toy primitives. */
public final class Field {
    private Field() {}

    static final BigInteger P = BigInteger.ONE.shiftLeft(255).subtract(BigInteger.valueOf(19));
    static final BigInteger TWO = BigInteger.valueOf(2);
    static final BigInteger D = BigInteger.valueOf(-121665)
            .multiply(BigInteger.valueOf(121666).modInverse(P)).mod(P);
    static final BigInteger D2 = D.shiftLeft(1).mod(P);
    static final BigInteger LOW = BigInteger.ONE.shiftLeft(255).subtract(BigInteger.ONE);
    static final BigInteger C19 = BigInteger.valueOf(19);

    /** reduction of a non-negative number below 2^510 or so */
    static BigInteger red(BigInteger x) {
        while (x.bitLength() > 255) {
            x = x.and(LOW).add(x.shiftRight(255).multiply(C19));
        }
        return x.compareTo(P) >= 0 ? x.subtract(P) : x;
    }

    static BigInteger mul(BigInteger a, BigInteger b) {
        return red(a.multiply(b));
    }

    static BigInteger add(BigInteger a, BigInteger b) {
        return red(a.add(b));
    }

    static BigInteger sub(BigInteger a, BigInteger b) {
        BigInteger r = a.subtract(b);
        return r.signum() < 0 ? r.add(P) : r;
    }

    @TLAPlusOperator(identifier = "Ladder", module = "Curve", warn = false)
    public static Value ladder(final Value k, final Value u) {
        BigInteger n = B.nat(k);
        BigInteger x1 = B.nat(u);
        BigInteger x2 = BigInteger.ONE, z2 = BigInteger.ZERO, x3 = x1, z3 = BigInteger.ONE;
        BigInteger a24 = BigInteger.valueOf(121665);
        boolean swap = false;
        for (int t = 254; t >= 0; t--) {
            boolean kt = n.testBit(t);
            if (swap ^ kt) {
                BigInteger q = x2; x2 = x3; x3 = q;
                q = z2; z2 = z3; z3 = q;
            }
            swap = kt;
            BigInteger a = add(x2, z2), b = sub(x2, z2), c = add(x3, z3), d = sub(x3, z3);
            BigInteger aa = mul(a, a), bb = mul(b, b), e = sub(aa, bb), da = mul(d, a), cb = mul(c, b);
            BigInteger s = add(da, cb), m = sub(da, cb);
            x3 = mul(s, s);
            z3 = mul(x1, mul(m, m));
            x2 = mul(aa, bb);
            z2 = mul(e, add(aa, mul(a24, e)));
        }
        BigInteger x = swap ? x3 : x2;
        BigInteger z = swap ? z3 : z2;
        return B.nat(mul(x, z.modPow(P.subtract(TWO), P)), 32);
    }

    static BigInteger[] padd(BigInteger[] p, BigInteger[] q) {
        BigInteger a = mul(sub(p[1], p[0]), sub(q[1], q[0]));
        BigInteger b = mul(add(p[1], p[0]), add(q[1], q[0]));
        BigInteger c = mul(mul(p[3], D2), q[3]);
        BigInteger d = mul(add(p[2], p[2]), q[2]);
        BigInteger e = sub(b, a), f = sub(d, c), g = add(d, c), h = add(b, a);
        return new BigInteger[] {mul(e, f), mul(g, h), mul(f, g), mul(e, h)};
    }

    @TLAPlusOperator(identifier = "PMul", module = "Curve", warn = false)
    public static Value pmul(final Value n, final Value p) {
        BigInteger k = B.nat(n);
        Value[] e = B.tuple(p).elems;
        BigInteger[] q = new BigInteger[4];
        for (int i = 0; i < 4; i++) {
            q[i] = B.nat(e[i]);
        }
        BigInteger[] r = {BigInteger.ZERO, BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO};
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = padd(r, r);
            if (k.testBit(i)) {
                r = padd(r, q);
            }
        }
        Value[] o = new Value[4];
        for (int i = 0; i < 4; i++) {
            o[i] = B.nat(r[i], 32);
        }
        return new TupleValue(o);
    }

    @TLAPlusOperator(identifier = "ToyHash", module = "Mac", warn = false)
    public static Value toyHash(final Value d, final Value msg) {
        byte[] m = B.bytes(msg);
        byte[] o = new byte[B.num(d)];
        int[] lane = new int[4];
        for (int l = 1; l <= 4; l++) {
            int acc = 7 + 13 * l;
            for (byte b : m) {
                acc = (acc * 31 + (b & 255) + l) % 65521;
            }
            lane[l - 1] = (acc + m.length) % 65521;
        }
        for (int i = 1; i <= o.length; i++) {
            o[i - 1] = (byte) ((lane[(i - 1) % 4] * (i + 2)) / 16);
        }
        return B.value(o);
    }

    @TLAPlusOperator(identifier = "ToyMix", module = "Ciphers", warn = false)
    public static Value toyMix(final Value key, final Value block) {
        byte[] k = B.bytes(key);
        byte[] s = B.bytes(block);
        for (int i = 1; i <= 48; i++) {
            int j = (i - 1) % 16;
            int p = (j + 15) % 16;
            int q = (j + 5) % 16;
            int kb = k.length == 0 ? 90 : k[(i - 1) % k.length] & 255;
            s[j] = (byte) (((s[j] & 255) + 3 * (s[p] & 255) + kb) ^ ((s[q] & 255) * 5 + i));
        }
        return B.value(s);
    }
}
