"""Arithmetic for making interesting inputs (valid tags to present, crafted signatures, special
points).  Nothing here judges the library: spec/ does.  A mistake here costs coverage, no more."""
import hashlib, hmac as _hmac, struct

# ------------------------------------------------------------ AES, toy ciphers, GCM
def _xt(b):
    return ((b << 1) & 255) ^ (27 if b & 128 else 0)


def _mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xt(a)
        b >>= 1
    return r


def _sbox():
    s = [0] * 256
    inv = [0] * 256
    p = q = 1
    while True:
        p = p ^ _xt(p)
        q ^= q << 1; q ^= q << 2; q ^= q << 4; q &= 255
        if q & 128:
            q ^= 9
        inv[p] = q
        if p == 1:
            break
    for i in range(256):
        b = inv[i] if i else 0
        r = 99
        for k in range(5):
            r ^= ((b << k) | (b >> (8 - k))) & 255
        s[i] = r
    return s


SBOX = _sbox()


def aes_keys(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [SBOX[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = _xt(rc)
        elif nk > 6 and i % nk == 4:
            t = [SBOX[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def aes(key, block):
    rk = aes_keys(key)
    nr = len(rk) - 1
    s = [a ^ b for a, b in zip(block, rk[0])]
    for r in range(1, nr + 1):
        s = [SBOX[x] for x in s]
        s = [s[4 * ((i // 4 + i % 4) % 4) + i % 4] for i in range(16)]
        if r < nr:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for k in range(4):
                    o.append(_xt(a[k]) ^ _xt(a[(k + 1) % 4]) ^ a[(k + 1) % 4] ^ a[(k + 2) % 4] ^ a[(k + 3) % 4])
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


def aes_before(key, r, state, subbed):
    """the block whose encryption has this state in round r (1..): after ShiftRows if subbed, or before SubBytes"""
    rk = aes_keys(key)
    inv = [0] * 256
    for i, x in enumerate(SBOX):
        inv[x] = i
    s = list(state)
    while True:
        if subbed:
            t = [0] * 16
            for i in range(16):
                t[4 * ((i // 4 + i % 4) % 4) + i % 4] = s[i]
            s = [inv[x] for x in t]
        s = [a ^ b for a, b in zip(s, rk[r - 1])]
        r -= 1
        if r == 0:
            return bytes(s)
        o = []
        for c in range(4):
            a = s[4 * c:4 * c + 4]
            for k in range(4):
                o.append(_mul(a[k], 14) ^ _mul(a[(k + 1) % 4], 11) ^ _mul(a[(k + 2) % 4], 13) ^ _mul(a[(k + 3) % 4], 9))
        s, subbed = o, True


def _kb(key, i):
    return 90 if not key else key[i % len(key)]


def toymix(key, b):
    s = list(b)
    for i in range(48):
        j = i % 16
        left = (s[j] + 3 * s[(j + 15) % 16] + _kb(key, i)) & 255
        s[j] = left ^ ((s[(j + 5) % 16] * 5 + i + 1) & 255)
    return bytes(s)


def block(alg, key, b):
    if alg.startswith("aes"):
        return aes(key, b)
    if alg == "toyid":
        return bytes(b)
    if alg == "toyxor":
        return bytes(x ^ _kb(key, i) for i, x in enumerate(b))
    return toymix(key, b)


def gfmul(x, y):
    z, v = 0, y
    for i in range(127, -1, -1):
        if (x >> i) & 1:
            z ^= v
        v = (v >> 1) ^ ((0xE1 << 120) if v & 1 else 0)
    return z


def gfinv(x):
    r, e = 1 << 127, (1 << 128) - 2
    while e:
        if e & 1:
            r = gfmul(r, x)
        x = gfmul(x, x)
        e >>= 1
    return r


def pad16(b):
    return b + bytes(-len(b) % 16)


def gcm_tag(alg, key, nonce, aad, ct):
    h = int.from_bytes(block(alg, key, bytes(16)), "big")
    y = 0
    data = pad16(aad) + pad16(ct) + struct.pack(">QQ", 8 * len(aad), 8 * len(ct))
    for i in range(0, len(data), 16):
        y = gfmul(y ^ int.from_bytes(data[i:i + 16], "big"), h)
    e = block(alg, key, nonce + b"\0\0\0\1")
    return bytes(a ^ b for a, b in zip(e, y.to_bytes(16, "big")))


def gcm_ks(alg, key, nonce, n):
    return b"".join(block(alg, key, nonce + struct.pack(">I", 2 + i)) for i in range((n + 15) // 16))[:n]


# ------------------------------------------------------------ ChaCha20-Poly1305
def chacha_block(key, ctr, nonce):
    s = list(struct.unpack("<16I", b"expand 32-byte k" + key + struct.pack("<I", ctr) + nonce))
    x = list(s)

    def qr(a, b, c, d):
        for p, q, r, k in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
            x[p] = (x[p] + x[q]) & 0xFFFFFFFF
            x[r] ^= x[p]
            x[r] = ((x[r] << k) | (x[r] >> (32 - k))) & 0xFFFFFFFF
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack("<16I", *[(a + b) & 0xFFFFFFFF for a, b in zip(x, s)])


P1305 = (1 << 130) - 5


def poly_rs(key, nonce):
    k = chacha_block(key, 0, nonce)
    return (int.from_bytes(k[:16], "little") & 0x0FFFFFFC0FFFFFFC0FFFFFFC0FFFFFFF, int.from_bytes(k[16:32], "little"))


def poly_acc(r, data, acc=0):
    for i in range(0, len(data), 16):
        acc = (acc + int.from_bytes(data[i:i + 16] + b"\1", "little")) * r % P1305
    return acc


def cp_macdata(aad, ct):
    return pad16(aad) + pad16(ct) + struct.pack("<QQ", len(aad), len(ct))


def cp_tag(key, nonce, aad, ct):
    r, s = poly_rs(key, nonce)
    return ((poly_acc(r, cp_macdata(aad, ct)) + s) % (1 << 128)).to_bytes(16, "little")


def cp_ks(key, nonce, n):
    return b"".join(chacha_block(key, 1 + i, nonce) for i in range((n + 63) // 64))[:n]


def aead_tag(alg, key, nonce, aad, ct):
    if alg == "chachapoly":
        return cp_tag(key, nonce, aad, ct)
    return gcm_tag(alg[4:], key, nonce, aad, ct)


def aead_ks(alg, key, nonce, n):
    return cp_ks(key, nonce, n) if alg == "chachapoly" else gcm_ks(alg[4:], key, nonce, n)


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


# ------------------------------------------------------------ hashes
def sha(name, d):
    return hashlib.new(name, d).digest()


def toyhash(d, msg):
    lanes = [20, 33, 46, 59]
    for x in msg:
        lanes = [(v * 31 + x + l + 1) % 65521 for l, v in enumerate(lanes)]
    lanes = [(v + len(msg)) % 65521 for v in lanes]
    return bytes((lanes[i % 4] * (i + 3) // 16) & 255 for i in range(d))


def hash(h, d):
    if h.startswith("toy:"):
        return toyhash(int(h.split(":")[1]), d)
    return sha(h, d)


def hmac(h, key, msg, bs):
    if len(key) > bs:
        key = hash(h, key)
    key = key + bytes(bs - len(key))
    return hash(h, bytes(x ^ 92 for x in key) + hash(h, bytes(x ^ 54 for x in key) + msg))


# ------------------------------------------------------------ curves
P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
I = pow(2, (P - 1) // 4, P)


def padd(p, q):
    a = (p[1] - p[0]) * (q[1] - q[0]) % P
    b = (p[1] + p[0]) * (q[1] + q[0]) % P
    c = 2 * p[3] * q[3] * D % P
    d = 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


ID = (0, 1, 1, 0)


def pmul(n, p):
    r = ID
    while n:
        if n & 1:
            r = padd(r, p)
        p = padd(p, p)
        n >>= 1
    return r


def pneg(p):
    return (-p[0] % P, p[1], p[2], -p[3] % P)


def penc(p):
    z = pow(p[2], P - 2, P)
    x, y = p[0] * z % P, p[1] * z % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


def recover(y, sign):
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * I % P
    if (x * x - x2) % P:
        return None
    if x % 2 != sign:
        x = -x % P
    return (x, y % P, 1, x * y % P)


B = recover(4 * pow(5, P - 2, P) % P, 0)


def sqrt(a):
    r = pow(a, (P + 3) // 8, P)
    for x in (r, r * I % P):
        if x * x % P == a % P:
            return x
    return None


def secret(sk):
    h = hashlib.sha512(sk).digest()
    a = int.from_bytes(h[:32], "little")
    return (a & ((1 << 254) - 8)) | (1 << 254), h[32:]


def ed_pk(sk):
    return penc(pmul(secret(sk)[0], B))


def hml(*parts):
    return int.from_bytes(hashlib.sha512(b"".join(parts)).digest(), "little") % L


def ed_sign_with(a, pk, r, msg, R=None):
    """signature with chosen nonce scalar (and possibly a chosen R encoding)"""
    R = R if R is not None else penc(pmul(r, B))
    return R + ((r + hml(R, pk, msg) * a) % L).to_bytes(32, "little")


def ed_sign(sk, msg):
    a, pre = secret(sk)
    return ed_sign_with(a, penc(pmul(a, B)), hml(pre, msg), msg)


def torsion():
    """the eight points of small order"""
    y = 3
    while True:
        p = recover(y, 0)
        if p:
            t = pmul(L, p)
            q = pmul(4, t)
            if penc(q) != penc(ID):
                break
        y += 1
    return [pmul(i, t) for i in range(8)]


# ------------------------------------------------------------------ repeated blocks
def _iter(mul, add, one, r, x, n):
    """n-fold application of y -> (y + x) r as (a, b): y -> y a + b"""
    a, b = one, 0
    s = (r, mul(x, r))
    while n:
        if n & 1:
            a, b = mul(a, s[0]), add(mul(b, s[0]), s[1])
        s = (mul(s[0], s[0]), add(mul(s[1], s[0]), s[1]))
        n >>= 1
    return a, b


def tag_rep(alg, key, nonce, ax, an, cx, cn):
    """tag over an copies of the block ax and cn copies of cx"""
    if alg == "chachapoly":
        r, s = poly_rs(key, nonce)
        mul, add = (lambda u, v: u * v % P1305), (lambda u, v: (u + v) % P1305)
        num = lambda b: int.from_bytes(b + b"\1", "little")
        lens, one, r2 = struct.pack("<QQ", 16 * an, 16 * cn), 1, r
    else:
        alg = alg[4:]
        r = int.from_bytes(block(alg, key, bytes(16)), "big")
        mul, add = gfmul, (lambda u, v: u ^ v)
        num = lambda b: int.from_bytes(b, "big")
        lens, one = struct.pack(">QQ", 128 * an, 128 * cn), 1 << 127
    acc = 0
    for x, n in ((ax, an), (cx, cn), (lens, 1)):
        a, b = _iter(mul, add, one, r, num(x), n)
        acc = add(mul(acc, a), b)
    if one == 1:
        return ((acc + s) % (1 << 128)).to_bytes(16, "little")
    return xor(block(alg, key, nonce + b"\0\0\0\1"), acc.to_bytes(16, "big"))
