package verif;

import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Conversions between TLC values and Java bytes. */
final class B {
    private B() {}

    static final IntValue[] BYTE = new IntValue[256];

    static {
        for (int i = 0; i < 256; i++) {
            BYTE[i] = IntValue.gen(i);
        }
    }

    static TupleValue tuple(Value v) {
        if (v instanceof TupleValue) {
            return (TupleValue) v;
        }
        Value t = v.toTuple();
        if (t == null) {
            throw new RuntimeException("not a sequence: " + v.getKindString());
        }
        return (TupleValue) t;
    }

    static byte[] bytes(Value v) {
        Value[] e = tuple(v).elems;
        byte[] r = new byte[e.length];
        for (int i = 0; i < r.length; i++) {
            int x = ((IntValue) e[i]).val;
            if (x < 0 || x > 255) {
                throw new RuntimeException("not a byte: " + x);
            }
            r[i] = (byte) x;
        }
        return r;
    }

    static TupleValue value(byte[] b) {
        return value(b, 0, b.length);
    }

    static TupleValue value(byte[] b, int off, int n) {
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) {
            e[i] = BYTE[b[off + i] & 255];
        }
        return new TupleValue(e);
    }

    static int num(Value v) {
        return ((IntValue) v).val;
    }

    static String str(Value v) {
        return ((StringValue) v).val.toString();
    }

    static BigInteger nat(Value v) {
        byte[] b = bytes(v);
        reverse(b);
        return new BigInteger(1, b);
    }

    /** little-endian, exactly n bytes (the low ones) */
    static TupleValue nat(BigInteger x, int n) {
        byte[] be = x.toByteArray();
        byte[] r = new byte[n];
        for (int i = 0; i < n && i < be.length; i++) {
            r[i] = be[be.length - 1 - i];
        }
        return value(r);
    }

    static void reverse(byte[] b) {
        for (int i = 0, j = b.length - 1; i < j; i++, j--) {
            byte t = b[i];
            b[i] = b[j];
            b[j] = t;
        }
    }
}
