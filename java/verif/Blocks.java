package verif;

import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.Value;

/** Accelerators for the fixed-size block functions of modules Sha2, Ciphers, Gcm and ChaCha. */
public final class Blocks {
    private Blocks() {}

    static final long[] K512;
    static final int[] K256;

    static {
        // FIPS 180-4, 4.2: fractional parts of cube roots of the first primes
        K512 = new long[80];
        K256 = new int[64];
        int n = 0;
        for (int p = 2; n < 80; p++) {
            if (!java.math.BigInteger.valueOf(p).isProbablePrime(30)) {
                continue;
            }
            java.math.BigInteger v = java.math.BigInteger.valueOf(p).shiftLeft(192);
            java.math.BigInteger x = java.math.BigInteger.ZERO;
            for (int b = 67; b >= 0; b--) {
                java.math.BigInteger y = x.setBit(b);
                if (y.pow(3).compareTo(v) <= 0) {
                    x = y;
                }
            }
            K512[n] = x.longValue();
            if (n < 64) {
                K256[n] = (int) (x.longValue() >>> 32);
            }
            n++;
        }
    }

    @TLAPlusOperator(identifier = "Compress", module = "Sha2", warn = false)
    public static Value compress(final Value w, final Value state, final Value block) {
        Value[] s = B.tuple(state).elems;
        byte[] b = B.bytes(block);
        Value[] out = new Value[8];
        if (((BoolValue) w).val) {
            long[] h = new long[8];
            for (int i = 0; i < 8; i++) {
                h[i] = le64(B.bytes(s[i]));
            }
            compress512(h, b);
            for (int i = 0; i < 8; i++) {
                byte[] o = new byte[8];
                for (int j = 0; j < 8; j++) {
                    o[j] = (byte) (h[i] >>> (8 * j));
                }
                out[i] = B.value(o);
            }
        } else {
            int[] h = new int[8];
            for (int i = 0; i < 8; i++) {
                h[i] = le32(B.bytes(s[i]), 0);
            }
            compress256(h, b);
            for (int i = 0; i < 8; i++) {
                byte[] o = new byte[4];
                put32(o, 0, h[i]);
                out[i] = B.value(o);
            }
        }
        return new TupleValue(out);
    }

    /** The last blocks of a long message are folded by TLC; this is the fold over a repeated block. */
    @TLAPlusOperator(identifier = "CompressRep", module = "Sha2", warn = false)
    public static Value compressRep(final Value w, final Value state, final Value block, final Value n) {
        Value[] s = B.tuple(state).elems;
        byte[] b = B.bytes(block);
        int reps = B.num(n);
        Value[] out = new Value[8];
        if (((BoolValue) w).val) {
            long[] h = new long[8];
            for (int i = 0; i < 8; i++) {
                h[i] = le64(B.bytes(s[i]));
            }
            for (int r = 0; r < reps; r++) {
                compress512(h, b);
            }
            for (int i = 0; i < 8; i++) {
                byte[] o = new byte[8];
                for (int j = 0; j < 8; j++) {
                    o[j] = (byte) (h[i] >>> (8 * j));
                }
                out[i] = B.value(o);
            }
        } else {
            int[] h = new int[8];
            for (int i = 0; i < 8; i++) {
                h[i] = le32(B.bytes(s[i]), 0);
            }
            for (int r = 0; r < reps; r++) {
                compress256(h, b);
            }
            for (int i = 0; i < 8; i++) {
                byte[] o = new byte[4];
                put32(o, 0, h[i]);
                out[i] = B.value(o);
            }
        }
        return new TupleValue(out);
    }

    static void compress512(long[] h, byte[] b) {
        long[] w = new long[80];
        for (int t = 0; t < 16; t++) {
            for (int j = 0; j < 8; j++) {
                w[t] = (w[t] << 8) | (b[8 * t + j] & 255);
            }
        }
        for (int t = 16; t < 80; t++) {
            long x = w[t - 15];
            long y = w[t - 2];
            w[t] = (Long.rotateRight(y, 19) ^ Long.rotateRight(y, 61) ^ (y >>> 6)) + w[t - 7]
                    + (Long.rotateRight(x, 1) ^ Long.rotateRight(x, 8) ^ (x >>> 7)) + w[t - 16];
        }
        long a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int t = 0; t < 80; t++) {
            long t1 = hh + (Long.rotateRight(e, 14) ^ Long.rotateRight(e, 18) ^ Long.rotateRight(e, 41))
                    + ((e & f) ^ (~e & g)) + K512[t] + w[t];
            long t2 = (Long.rotateRight(a, 28) ^ Long.rotateRight(a, 34) ^ Long.rotateRight(a, 39))
                    + ((a & bb) ^ (a & c) ^ (bb & c));
            hh = g; g = f; f = e; e = d + t1; d = c; c = bb; bb = a; a = t1 + t2;
        }
        h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    }

    static void compress256(int[] h, byte[] b) {
        int[] w = new int[64];
        for (int t = 0; t < 16; t++) {
            for (int j = 0; j < 4; j++) {
                w[t] = (w[t] << 8) | (b[4 * t + j] & 255);
            }
        }
        for (int t = 16; t < 64; t++) {
            int x = w[t - 15];
            int y = w[t - 2];
            w[t] = (Integer.rotateRight(y, 17) ^ Integer.rotateRight(y, 19) ^ (y >>> 10)) + w[t - 7]
                    + (Integer.rotateRight(x, 7) ^ Integer.rotateRight(x, 18) ^ (x >>> 3)) + w[t - 16];
        }
        int a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int t = 0; t < 64; t++) {
            int t1 = hh + (Integer.rotateRight(e, 6) ^ Integer.rotateRight(e, 11) ^ Integer.rotateRight(e, 25))
                    + ((e & f) ^ (~e & g)) + K256[t] + w[t];
            int t2 = (Integer.rotateRight(a, 2) ^ Integer.rotateRight(a, 13) ^ Integer.rotateRight(a, 22))
                    + ((a & bb) ^ (a & c) ^ (bb & c));
            hh = g; g = f; f = e; e = d + t1; d = c; c = bb; bb = a; a = t1 + t2;
        }
        h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    }

    static int le32(byte[] b, int o) {
        return (b[o] & 255) | (b[o + 1] & 255) << 8 | (b[o + 2] & 255) << 16 | (b[o + 3] & 255) << 24;
    }

    static long le64(byte[] b) {
        return (le32(b, 0) & 0xffffffffL) | ((long) le32(b, 4) << 32);
    }

    static void put32(byte[] b, int o, int v) {
        for (int j = 0; j < 4; j++) {
            b[o + j] = (byte) (v >>> (8 * j));
        }
    }

    private static final ThreadLocal<Object[]> AES = ThreadLocal.withInitial(() -> new Object[2]);

    @TLAPlusOperator(identifier = "AesBlock", module = "Ciphers", warn = false)
    public static Value aesBlock(final Value key, final Value block) {
        try {
            Object[] c = AES.get();
            byte[] k = B.bytes(key);
            if (c[0] == null) {
                c[0] = Cipher.getInstance("AES/ECB/NoPadding");
            }
            if (!java.util.Arrays.equals((byte[]) c[1], k)) {
                ((Cipher) c[0]).init(Cipher.ENCRYPT_MODE, new SecretKeySpec(k, "AES"));
                c[1] = k;
            }
            return B.value(((Cipher) c[0]).doFinal(B.bytes(block)));
        } catch (java.security.GeneralSecurityException e) {
            throw new RuntimeException(e);
        }
    }

    private static long be64(byte[] b, int o) {
        long r = 0;
        for (int i = 0; i < 8; i++) {
            r = (r << 8) | (b[o + i] & 255);
        }
        return r;
    }

    @TLAPlusOperator(identifier = "GfMul", module = "Gcm", warn = false)
    public static Value gfMul(final Value x, final Value y) {
        byte[] xb = B.bytes(x);
        byte[] yb = B.bytes(y);
        long xh = be64(xb, 0);
        long xl = be64(xb, 8);
        long vh = be64(yb, 0);
        long vl = be64(yb, 8);
        long zh = 0;
        long zl = 0;
        for (int i = 0; i < 128; i++) {
            if (((i < 64 ? xh >>> (63 - i) : xl >>> (127 - i)) & 1) == 1) {
                zh ^= vh;
                zl ^= vl;
            }
            boolean low = (vl & 1) == 1;
            vl = (vl >>> 1) | (vh << 63);
            vh >>>= 1;
            if (low) {
                vh ^= 0xe1L << 56;
            }
        }
        byte[] o = new byte[16];
        for (int i = 0; i < 8; i++) {
            o[i] = (byte) (zh >>> (56 - 8 * i));
            o[8 + i] = (byte) (zl >>> (56 - 8 * i));
        }
        return B.value(o);
    }

    @TLAPlusOperator(identifier = "ChaChaBlock", module = "ChaCha", warn = false)
    public static Value chachaBlock(final Value key, final Value counter, final Value nonce) {
        int[] s = new int[16];
        s[0] = 0x61707865;
        s[1] = 0x3320646e;
        s[2] = 0x79622d32;
        s[3] = 0x6b206574;
        byte[] k = B.bytes(key);
        byte[] n = B.bytes(nonce);
        for (int i = 0; i < 8; i++) {
            s[4 + i] = le32(k, 4 * i);
        }
        s[12] = le32(B.bytes(counter), 0);
        for (int i = 0; i < 3; i++) {
            s[13 + i] = le32(n, 4 * i);
        }
        int[] x = s.clone();
        for (int i = 0; i < 10; i++) {
            for (int j = 0; j < 4; j++) {
                qr(x, j, 4 + j, 8 + j, 12 + j);
            }
            for (int j = 0; j < 4; j++) {
                qr(x, j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4);
            }
        }
        byte[] o = new byte[64];
        for (int i = 0; i < 16; i++) {
            put32(o, 4 * i, x[i] + s[i]);
        }
        return B.value(o);
    }

    private static void qr(int[] x, int a, int b, int c, int d) {
        x[a] += x[b];
        x[d] = Integer.rotateLeft(x[d] ^ x[a], 16);
        x[c] += x[d];
        x[b] = Integer.rotateLeft(x[b] ^ x[c], 12);
        x[a] += x[b];
        x[d] = Integer.rotateLeft(x[d] ^ x[a], 8);
        x[c] += x[d];
        x[b] = Integer.rotateLeft(x[b] ^ x[c], 7);
    }
}
