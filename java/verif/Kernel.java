package verif;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Accelerators for module Kernel. */
public final class Kernel {
    private Kernel() {}

    private static TupleValue shift(Value a, Value k, boolean rot) {
        byte[] x = B.bytes(a);
        int n = x.length;
        int q = B.num(k) / 8;
        int r = B.num(k) % 8;
        byte[] o = new byte[n];
        for (int i = 0; i < n; i++) {
            int lo;
            int hi;
            if (rot) {
                lo = x[(i + q) % n] & 255;
                hi = x[(i + q + 1) % n] & 255;
            } else {
                lo = i + q < n ? x[i + q] & 255 : 0;
                hi = i + q + 1 < n ? x[i + q + 1] & 255 : 0;
            }
            o[i] = (byte) ((lo >> r) | (hi << (8 - r)));
        }
        return B.value(o);
    }

    @TLAPlusOperator(identifier = "Zeros", module = "Kernel", warn = false)
    public static Value zeros(final Value n) {
        return B.value(new byte[Math.max(0, B.num(n))]);
    }

    @TLAPlusOperator(identifier = "Fill", module = "Kernel", warn = false)
    public static Value fill(final Value n, final Value b) {
        Value[] e = new Value[Math.max(0, B.num(n))];
        java.util.Arrays.fill(e, b);
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "Rev", module = "Kernel", warn = false)
    public static Value rev(final Value s) {
        Value[] e = B.tuple(s).elems;
        Value[] o = new Value[e.length];
        for (int i = 0; i < e.length; i++) {
            o[i] = e[e.length - 1 - i];
        }
        return new TupleValue(o);
    }

    @TLAPlusOperator(identifier = "BlocksOf", module = "Kernel", warn = false)
    public static Value blocksOf(final Value s, final Value n) {
        Value[] e = B.tuple(s).elems;
        int k = B.num(n);
        Value[] o = new Value[(e.length + k - 1) / k];
        for (int i = 0; i < o.length; i++) {
            o[i] = new TupleValue(java.util.Arrays.copyOfRange(e, i * k, Math.min(e.length, (i + 1) * k)));
        }
        return new TupleValue(o);
    }

    @TLAPlusOperator(identifier = "Flatten", module = "Kernel", warn = false)
    public static Value flatten(final Value ss) {
        Value[] e = B.tuple(ss).elems;
        TupleValue[] t = new TupleValue[e.length];
        int n = 0;
        for (int i = 0; i < e.length; i++) {
            t[i] = B.tuple(e[i]);
            n += t[i].elems.length;
        }
        Value[] o = new Value[n];
        int p = 0;
        for (TupleValue x : t) {
            System.arraycopy(x.elems, 0, o, p, x.elems.length);
            p += x.elems.length;
        }
        return new TupleValue(o);
    }

    @TLAPlusOperator(identifier = "Hex", module = "Kernel", warn = false)
    public static Value hex(final Value v) {
        String s = B.str(v);
        Value[] o = new Value[s.length() / 2];
        for (int i = 0; i < o.length; i++) {
            int h = Character.digit(s.charAt(2 * i), 16);
            int l = Character.digit(s.charAt(2 * i + 1), 16);
            if (h < 0 || l < 0) {
                throw new RuntimeException("bad hex");
            }
            o[i] = B.BYTE[16 * h + l];
        }
        return new TupleValue(o);
    }

    @TLAPlusOperator(identifier = "ToHex", module = "Kernel", warn = false)
    public static Value toHex(final Value s) {
        StringBuilder sb = new StringBuilder();
        for (byte b : B.bytes(s)) {
            sb.append(Character.forDigit((b >> 4) & 15, 16)).append(Character.forDigit(b & 15, 16));
        }
        return new StringValue(sb.toString());
    }

    @TLAPlusOperator(identifier = "XorB", module = "Kernel", warn = false)
    public static Value xorB(final Value a, final Value b) {
        byte[] x = B.bytes(a);
        byte[] y = B.bytes(b);
        for (int i = 0; i < x.length; i++) {
            x[i] ^= y[i];
        }
        return B.value(x);
    }

    @TLAPlusOperator(identifier = "AndB", module = "Kernel", warn = false)
    public static Value andB(final Value a, final Value b) {
        byte[] x = B.bytes(a);
        byte[] y = B.bytes(b);
        for (int i = 0; i < x.length; i++) {
            x[i] &= y[i];
        }
        return B.value(x);
    }

    @TLAPlusOperator(identifier = "NotB", module = "Kernel", warn = false)
    public static Value notB(final Value a) {
        byte[] x = B.bytes(a);
        for (int i = 0; i < x.length; i++) {
            x[i] = (byte) ~x[i];
        }
        return B.value(x);
    }

    @TLAPlusOperator(identifier = "ShRB", module = "Kernel", warn = false)
    public static Value shRB(final Value a, final Value k) {
        return shift(a, k, false);
    }

    @TLAPlusOperator(identifier = "RotRB", module = "Kernel", warn = false)
    public static Value rotRB(final Value a, final Value k) {
        return shift(a, k, true);
    }

    @TLAPlusOperator(identifier = "AddB", module = "Kernel", warn = false)
    public static Value addB(final Value a, final Value b) {
        byte[] x = B.bytes(a);
        byte[] y = B.bytes(b);
        int c = 0;
        for (int i = 0; i < x.length; i++) {
            c += (x[i] & 255) + (y[i] & 255);
            x[i] = (byte) c;
            c >>= 8;
        }
        return B.value(x);
    }

    @TLAPlusOperator(identifier = "NatCmp", module = "Kernel", warn = false)
    public static Value natCmp(final Value a, final Value b) {
        return IntValue.gen(B.nat(a).compareTo(B.nat(b)));
    }

    @TLAPlusOperator(identifier = "NatAdd", module = "Kernel", warn = false)
    public static Value natAdd(final Value a, final Value b) {
        return B.nat(B.nat(a).add(B.nat(b)), Math.max(len(a), len(b)) + 1);
    }

    @TLAPlusOperator(identifier = "NatSub", module = "Kernel", warn = false)
    public static Value natSub(final Value a, final Value b) {
        return B.nat(B.nat(a).subtract(B.nat(b)), len(a));
    }

    @TLAPlusOperator(identifier = "NatMul", module = "Kernel", warn = false)
    public static Value natMul(final Value a, final Value b) {
        return B.nat(B.nat(a).multiply(B.nat(b)), len(a) + len(b));
    }

    @TLAPlusOperator(identifier = "NatMod", module = "Kernel", warn = false)
    public static Value natMod(final Value a, final Value m) {
        return B.nat(B.nat(a).mod(B.nat(m)), len(m));
    }

    @TLAPlusOperator(identifier = "ModAdd", module = "Kernel", warn = false)
    public static Value modAdd(final Value a, final Value b, final Value m) {
        return B.nat(B.nat(a).add(B.nat(b)).mod(B.nat(m)), len(m));
    }

    @TLAPlusOperator(identifier = "ModSub", module = "Kernel", warn = false)
    public static Value modSub(final Value a, final Value b, final Value m) {
        return B.nat(B.nat(a).subtract(B.nat(b)).mod(B.nat(m)), len(m));
    }

    @TLAPlusOperator(identifier = "ModMul", module = "Kernel", warn = false)
    public static Value modMul(final Value a, final Value b, final Value m) {
        return B.nat(B.nat(a).multiply(B.nat(b)).mod(B.nat(m)), len(m));
    }

    @TLAPlusOperator(identifier = "ModExp", module = "Kernel", warn = false)
    public static Value modExp(final Value a, final Value e, final Value m) {
        return B.nat(B.nat(a).modPow(B.nat(e), B.nat(m)), len(m));
    }

    @TLAPlusOperator(identifier = "BitLen", module = "Kernel", warn = false)
    public static Value bitLen(final Value a) {
        return IntValue.gen(B.nat(a).bitLength());
    }

    private static int len(Value v) {
        return B.tuple(v).elems.length;
    }
}
