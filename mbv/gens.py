"""Plans: which calls to make on the library.  Nothing here decides what replies are right."""
import random
from . import ref
from .core import Session, Rep, HASHES, SHAS, AES, TOYS, hsizes, THOROUGH

X = lambda q, t: t if THOROUGH else q      # quick / thorough sizes


class G:
    """Sessions and the source of randomness."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.s = []

    def new(self, why):
        s = Session(why)
        self.s.append(s)
        return s

    def bytes(self, n):
        k = self.r.randrange(10)
        if k == 0:
            return bytes([self.r.choice([0, 255, 128, 127])]) * n
        if k == 1:
            b = bytearray([self.r.choice([0, 255])]) * n
            for _ in range(min(n, self.r.randrange(4))):
                b[self.r.randrange(n)] = self.r.randrange(256)
            return bytes(b)
        return self.r.randbytes(n)

    def rnd(self, n):
        return self.r.randbytes(n)


def key_for(g, alg):
    return g.bytes(AES.get(alg, 32))


def split(g, d, maxpieces=6):
    cuts = sorted(g.r.randrange(len(d) + 1) for _ in range(g.r.randrange(maxpieces)))
    at = 0
    for c in cuts + [len(d)]:
        yield d[at:c]
        at = c


def batches(g, why, n, f, per=8):
    """n calls of f(session, index), a few per session"""
    for i in range(n):
        if i % per == 0:
            s = g.new(why)
        f(s, i)


# ------------------------------------------------------------------ hashing
def sha_lengths(g):
    for h in SHAS:
        d, b = HASHES[h]
        g.new("advertised sizes of " + h).hash_sizes(h)
        lens = list(range(0, X(2 * b + 20, 5 * b + 20))) + [3 * b - 1, 3 * b, 4 * b - 17, 4 * b - 16, 4 * b - 9, 4 * b - 8, 1000, 4095, 4096, 4097]
        def f(s, i):
            s.hash_one(h, g.bytes(lens[i]))
        batches(g, h + ": message lengths", len(lens), f, 16)
        s = g.new(h + ": structured messages")
        for n in (b - 1, b, b + 1, 2 * b):
            for fill in (0, 255, 128):
                s.hash_one(h, bytes([fill]) * n)
        # one bit set
        s = g.new(h + ": single bits")
        for i in range(0, 8 * b, X(7, 1)):
            m = bytearray(b)
            m[i // 8] = 1 << (i % 8)
            s.hash_one(h, m)
        for n in (b - 9, b, 3 * b + 5):
            s = g.new(h + ": incremental hasher")
            m = g.bytes(n)
            s.hash_new(1, h)
            for p in split(g, m):
                s.hash_up(1, p)
            s.hash_fin(1, d)


def sha_chains(g):
    for h in SHAS:
        for _ in range(8):
            g.new("iterated " + h).chain(h, g.rnd(512), X(12000, 60000))


def sha_mid(g):
    for h in SHAS:
        b = HASHES[h][1]
        for n in (65535, 65536, 65536 // b * b + b - 9, 1 << 17, (1 << 20) + 3):
            g.new(h + ": message of %d bytes" % n).hash_big(h, g.rnd(b), n // b, g.rnd(n % b), 0)
            g.new(h + ": message of %d bytes in pieces" % n).hash_big(h, g.rnd(b), n // b, g.rnd(n % b), 5 * b)
        # byte and bit counts at which narrow counters would wrap
        for k in (8192, 8191, 16384, 32768):
            g.new(h + ": about %d bytes" % k).hash_big(h, g.rnd(b), k // b, g.rnd(7), 3 * b)


def sha_powers(g):
    """lengths around every power of two"""
    for h in SHAS:
        b = HASHES[h][1]
        for k in range(12, X(27, 29)):
            n = (1 << k) + g.r.randrange(-b, b)
            g.new(h + ": message of about 2^%d bytes" % k).hash_big(h, g.rnd(b), n // b, g.rnd(n % b), g.r.choice([0, 997, 1 << 13, b]) if k < 22 else 0)
            n = (1 << k) + g.r.choice([-9, -8, -1, 0, 1, b - 17, b - 16, b - 9, b - 8])
            g.new(h + ": message of about 2^%d bytes" % k).hash_big(h, g.rnd(b), n // b, g.rnd(n % b), 0)


def sha_long(g):
    """lengths at which 32-bit counters of bits or of bytes would wrap"""
    for h in SHAS:
        b = HASHES[h][1]
        for n in (1 << 29, 1 << 32) + X((), (1 << 33, 1 << 34)):
            s = g.new(h + ": message of more than %d bytes" % n)
            s.limit = 800
            s.hash_big(h, g.rnd(b), n // b + 1, g.rnd(9), 1 << 16)
    for i, h in enumerate(SHAS):
        for piece in (0, None) if THOROUGH else ((0, None)[i % 2],):
            very_long(g, h, piece)


def megabytes(g):
    """large arguments for builds without optimisation, whose calls need more of the stack"""
    for h in SHAS:
        d, b = HASHES[h]
        n = (1 << 21) // b + g.r.randrange(9)
        g.new(h + ": some megabytes at once").hash_big(h, g.rnd(b), n, g.rnd(5), 0)
        g.new(h + ": some megabytes at once, HMAC").hmac_big(h, g.rnd(b), n, g.rnd(6), 0, g.rnd(20))
        block = g.rnd(b)
        g.new(h + ": some megabytes at once, HMAC key").hmac_longkey(h, block, n // 2, block[:7], g.rnd(20))
    g.new("stream: some megabytes at once").st_new(1, g.rnd(32), g.rnd(12)).st_take(1, 7).st_long(1, 3000001).st_nthl(1, 1000001).st_take(1, 70)
    g.new("Ed25519: some megabytes at once").ed_long(g.rnd(32), g.rnd(32), 40001)
    for alg in ["gcm-aes128", "gcm-aes192", "gcm-aes256", "chachapoly"]:
        aead_long(g, alg, X(9000, 60000), 20001)


def very_long(g, h, piece):
    """more than 2^32 bytes at once; piece: as in hash_big, or None for all but a few bytes"""
    b = HASHES[h][1]
    block = g.rnd(b)
    n = (1 << 32) // b + 2
    s = g.new(h + ": more than 2^32 bytes in one " + ("call" if piece == 0 else "update"))
    s.limit = 800
    s.hash_big(h, block, n, block[:9], (1 << 32) + 70 if piece is None else piece)


def very_long_updates(g):
    for h in SHAS if THOROUGH else ["sha256", "sha512"]:
        very_long(g, h, None)


def very_long_keys(g):
    for h in SHAS if THOROUGH else ["sha224", "sha512"]:
        b = HASHES[h][1]
        block = g.rnd(b)
        s = g.new(h + ": HMAC under a key of more than 2^32 bytes")
        s.limit = 800
        s.hmac_longkey(h, block, (1 << 32) // b, block[:20], g.rnd(30))
    for h in SHAS if THOROUGH else ["sha256", "sha384"]:
        b = HASHES[h][1]
        block = g.rnd(b)
        s = g.new(h + ": HMAC of more than 2^32 bytes at once")
        s.limit = 800
        s.hmac_big(h, block, (1 << 32) // b + 1, block[:7], 0, g.rnd(20))


def very_long_stream(g):
    for by in ((1 << 32) + 70,) + X((), ((1 << 32) - 1, 1 << 33)):
        s = g.new("stream: %d bytes encrypted at once" % by)
        s.limit = 800
        s.st_new(1, g.rnd(32), g.rnd(12)).st_take(1, 5).st_long(1, by).st_take(1, 100).st_enc(1, bytes(70), 70)
    for by in ((1 << 32) + 70, (1 << 32) - 1) + X((), (1 << 33, (1 << 35) + 1)):
        s = g.new("stream: %d bytes skipped at once" % by)
        s.limit = 800
        s.st_new(1, g.rnd(32), g.rnd(12)).st_take(1, g.r.randrange(130)).st_nthl(1, by).st_take(1, 100).st_nthl(1, 7).st_enc(1, bytes(70), 70)


def very_long_sign(g):
    s = g.new("Ed25519: signature of more than 2^32 bytes")
    s.limit = 800
    s.ed_long(g.rnd(32), g.rnd(32), (1 << 27) + 2)


def ed_long_signature(sk, d, n):
    import hashlib
    def h(*pre):
        x = hashlib.sha512(b"".join(pre))
        chunk, left = d * (1 << 19), n
        while left:
            k = min(left, 1 << 19)
            x.update(chunk if k == 1 << 19 else d * k)
            left -= k
        return int.from_bytes(x.digest(), "little") % ref.L
    a, prefix = ref.secret(sk)
    pk = ref.ed_pk(sk)
    r = h(prefix)
    R = ref.penc(ref.pmul(r, ref.B))
    return R + ((r + h(R, pk) * a) % ref.L).to_bytes(32, "little")


def very_long_verify(g):
    sk, d, n = g.rnd(32), g.rnd(32), (1 << 27) + 2
    s = g.new("Ed25519: verification with more than 2^32 bytes")
    s.limit = 800
    s.ed_vlong(ref.ed_pk(sk), d, n, ed_long_signature(sk, d, n))


def very_long_reject(g):
    """the signature of a message whose length differs by a multiple of 2^32"""
    sk, d, n = g.rnd(32), g.rnd(32), 2
    s = g.new("Ed25519: the signature of a message shorter by 2^32 bytes")
    s.limit = 800
    s.ed_vlong(ref.ed_pk(sk), d, n + (1 << 27), ref.ed_sign(sk, n * d))


def hmac_long(g):
    for h in SHAS:
        b = HASHES[h][1]
        s = g.new(h + ": HMAC of more than 2^29 bytes")
        s.limit = 800
        s.hmac_big(h, g.rnd(b), (1 << 29) // b + 1, g.rnd(9), 1 << 16, g.rnd(20))


def long_c09(g):
    aead_mac(g, "chachapoly", (1 << 25) + 1)
    aead_mac(g, "chachapoly", (1 << 28) + 3)
    aead_long(g, "chachapoly", (1 << 25) + 1)
    if THOROUGH:
        aead_mac(g, "chachapoly", (1 << 29) + 3)


def long_c10(g):
    aead_rep(g, "chachapoly", 2, (1 << 28) + 5)
    aead_rep(g, "chachapoly", (1 << 25) + 1, 5)
    aead_rep(g, "chachapoly", 5, (1 << 25) + 1, False)
    # lengths that differ by 2^32 bytes
    aead_rep(g, "chachapoly", (1 << 28) + 2, 3, tagged=2)
    if THOROUGH:
        aead_rep(g, "chachapoly", (1 << 28) + 1, (1 << 29) + 1)


def long_c11(g):
    aead_mac(g, "gcm-aes128", (1 << 28) + 3)
    aead_mac(g, "gcm-aes192", (1 << 25) + 1)
    aead_mac(g, "gcm-aes256", (1 << 25) + 1)
    aead_long(g, "gcm-aes128", (1 << X(20, 25)) + 1)
    # 24-bit counters
    aead_long(g, "gcm-toymix", (1 << 24) + 3)


def long_c12(g):
    aead_rep(g, "gcm-aes128", (1 << 25) + 1, 7)
    aead_rep(g, "gcm-aes256", (1 << 25) + 1, 7, False)
    aead_rep(g, "gcm-aes192", 1, (1 << X(21, 25)) + 1)
    # lengths that differ by 2^32 bytes
    aead_rep(g, "gcm-aes128", (1 << 28) + 2, 3, tagged=2)


def long_c22(g):
    aead_rep(g, "gcm-toyid", 1, (1 << 28) + 1)
    aead_rep(g, "gcm-toymix", 1, (1 << 25) + 1)
    aead_long(g, "gcm-toymix", (1 << 23) + 1)


def chunk_matrix(g, kinds=("hash", "hmac")):
    """every offset in the block buffer against piece lengths around it"""
    for h in SHAS:
        d, b = HASHES[h]
        pairs = set()
        for off in range(b):
            edge = [0, 1, b - off - 1, b - off, b - off + 1, 2 * b - off, 2 * b - off - 1]
            tail = [b - d // 7 - off, b - 8 - off, b - 9 - off, b - 16 - off, b - 17 - off]
            for n in edge + tail:
                if n >= 0:
                    pairs.add((off, n))
            for _ in range(X(2, 40)):
                pairs.add((off, g.r.randrange(3 * b)))
        pairs = sorted(pairs)
        def f(s, i):
            off, n = pairs[i]
            k = i % 8
            s.hash_new(k, h).hash_up(k, g.bytes(off)).hash_up(k, g.bytes(n))
            if i % 3 == 0:
                s.hash_up(k, g.bytes(g.r.randrange(b + 2)))
            s.hash_fin(k, d)
        batches(g, h + ": buffer offset against piece length", len(pairs), f, 8)


def interleave(g, n):
    """several hashers and MACs advanced in turn"""
    for i in range(n):
        s = g.new("interleaved hashers and MACs")
        live = {}
        for o in range(2 + g.r.randrange(3)):
            h = g.r.choice(SHAS)
            if g.r.random() < 0.5:
                s.hash_new(o, h); live[o] = ("hash", h)
            else:
                s.hmac_new(o, h, g.bytes(g.r.choice([0, 5, 20, 64, 128, 129, 200]))); live[o] = ("hmac", h)
        for _ in range(10 + g.r.randrange(10)):
            o = g.r.choice(list(live))
            k, h = live[o]
            b = HASHES[h][1]
            n_ = g.r.choice([0, 1, 7, b - 9, b - 1, b, b + 1, 2 * b, 3 * b + 1, g.r.randrange(3 * b)])
            s.op(k + "_up", o, g.bytes(n_))
            if g.r.random() < 0.1:
                s.hash_one(h, g.bytes(n_))
        for o, (k, h) in live.items():
            if k == "hash":
                s.hash_fin(o, HASHES[h][0])
            else:
                s.hmac_tag(o)


def many_pieces(g):
    for h in SHAS:
        d, b = HASHES[h]
        for size in (1, 3, b // 2 - 1, b - 1, b + 1):
            s = g.new(h + ": pieces of %d bytes" % size)
            s.hash_new(1, h).hmac_new(2, h, g.bytes(17))
            for _ in range(X(3, 8) * b // size + 5):
                p = g.bytes(size)
                s.hash_up(1, p)
                s.hmac_up(2, p)
                if g.r.random() < .2:
                    s.hash_up(1, b"")
            s.hash_fin(1, d).hmac_tag(2)


def many_updates(g):
    """more updates than 8, 16 or (thorough) 24 bits count"""
    for h in SHAS:
        b = HASHES[h][1]
        for size, pieces in ((1, 300), (1, 66000), (3, 66000), (b - 1, 66000), (b, 66000), (b + 1, 66000)) + X((), ((1, (1 << 24) + 300),)):
            n = size * pieces // b + 1
            g.new("%s: %d pieces of %d bytes" % (h, pieces, size)).hash_big(h, g.rnd(b), n, g.rnd(g.r.randrange(b)), size)
            if size < b:
                g.new("HMAC %s: %d pieces of %d bytes" % (h, pieces, size)).hmac_big(h, g.rnd(b), n, g.rnd(g.r.randrange(b)), size, g.rnd(20))
        s = g.new(h + ": very many empty pieces")
        s.hash_new(1, h).hmac_new(2, h, g.rnd(9)).hash_up(1, g.rnd(b - 3)).hmac_up(2, g.rnd(5))
        s.times(70000, "hash_up", 1, b"").times(70000, "hmac_up", 2, b"")
        s.hash_up(1, g.rnd(9)).hmac_up(2, g.rnd(b)).hash_fin(1, HASHES[h][0]).hmac_tag(2)


def laws(g, names, runs, count):
    for name in names:
        for i in range(runs):
            g.new("law %s in bulk" % name).law(name, g.r.randrange(1 << 32), count)


# ------------------------------------------------------------------ HMAC, HKDF
def hmac_keys(g, hs=SHAS, oneshot=True):
    for h in hs:
        d, b = hsizes(h)
        lens = sorted(set(list(range(0, b + 4)) + [2 * b - 1, 2 * b, 2 * b + 1, 255, 256, 257, 3 * b, 500, 1000] + list(range(d - 2, d + 3))))
        lens = [x for x in lens if x >= 0]
        if not oneshot:
            lens = [x for x in lens if x < 3 or abs(x - b) < 3 or abs(x - d) < 3 or x > b or x % 9 == 0]
        def f(s, i):
            k = g.bytes(lens[i])
            if oneshot:
                s.hmac_one(h, k, g.bytes(g.r.choice([0, 1, 28, b - 1, b, b + 1, g.r.randrange(300)])))
            s.hmac_new(1, h, k)
            for p in split(g, g.bytes(g.r.randrange(2 * b)), 3):
                s.hmac_up(1, p)
            s.hmac_tag(1)
        batches(g, h + ": HMAC key lengths", len(lens), f, 8)
        if oneshot:
            ml = list(range(0, X(b + 20, 3 * b)))
            def f2(s, i):
                s.hmac_one(h, g.bytes(g.r.choice([16, d, b])), g.bytes(ml[i]))
            batches(g, h + ": HMAC message lengths", len(ml), f2, 16)
        s = g.new(h + ": keys that are equal up to padding")
        long = g.rnd(b + 9)
        for k in (b"", b"\0", bytes(b - 1), bytes(b), b"k", b"k\0", b"k" + bytes(b - 1),
                  b"k" + bytes(b), bytes(b + 1), bytes(2 * b), bytes(b) + b"k", b"kk" + bytes(3 * b), long, long + bytes(1), long + bytes(b), bytes(7) + long, b"\x36" * b, b"\x5c" * b, b"\x36" * (b + 1)):
            s.hmac_new(1, h, k).hmac_up(1, b"message").hmac_tag(1)


def hmac_chains(g):
    for h in SHAS:
        for _ in range(8):
            g.new("iterated HMAC " + h).chain("hmac-" + h, g.rnd(600), X(4000, 30000))
        b = HASHES[h][1]
        g.new("HMAC of a long message").hmac_big(h, g.rnd(b), (1 << 20) // b + 1, g.rnd(5), 0, g.rnd(20))
        g.new("HMAC of a long message").hmac_big(h, g.rnd(b), (1 << 16) // b, g.rnd(b - 9), 7 * b, g.rnd(b + 1))


def hmac_verify(g, hs=SHAS):
    for h in hs:
        d, b = hsizes(h)
        for kl, ml in ((0, 0), (20, 50), (b, b), (b + 1, 3), (X(131, 1000), 77)):
            k, m = g.bytes(kl), g.bytes(ml)
            tag = ref.hmac(h, k, m, b)
            s = g.new(h + ": presented tags")
            s.hmac_verify(h, k, m, tag)
            for n in range(0, d):
                s.hmac_verify(h, k, m, tag[:n])
            for ext in (b"\0", b"\1", bytes(16), tag, bytes(256 - d if d < 256 else 1), bytes(256)):
                s.hmac_verify(h, k, m, tag + ext)
            for n in (1, d // 2):
                s.hmac_verify(h, k, m, tag[n:])
            s.hmac_verify(h, k, m, bytes(d)).hmac_verify(h, k, m, b"\xff" * d)
            s.hmac_verify(h, k, m + b"\0", tag).hmac_verify(h, k + b"x", m, tag)
            if kl and kl < b:
                s.hmac_verify(h, k + b"\0", m, tag)      # the same key after padding
            s.hmac_verify(h, k, m, tag[::-1])
            s = g.new(h + ": tags wrong in one bit")
            for i in range(8 * d):
                t = bytearray(tag)
                t[i // 8] ^= 1 << (i % 8)
                s.hmac_verify(h, k, m, t)
            s.hmac_verify(h, k, m, tag)
            s = g.new(h + ": tags wrong in several bytes")
            for _ in range(X(60, 500)):
                t = bytearray(tag)
                x = g.r.randrange(1, 256)
                i, j = g.r.randrange(d), g.r.randrange(d)
                kind = g.r.randrange(4)
                if kind == 0:
                    t[i] ^= x; t[j] ^= x
                elif kind == 1:
                    t[i] = (t[i] + x) & 255; t[j] = (t[j] - x) & 255
                elif kind == 2:
                    t[i], t[j] = t[j], t[i]
                else:
                    for q in range(d):
                        if q >= i:
                            t[q] ^= g.r.randrange(256)
                s.hmac_verify(h, k, m, t)
        for h2 in hs:
            if hsizes(h2)[0] != d or h2 != h:
                k, m = g.bytes(9), g.bytes(30)
                g.new("tag of another hash").hmac_verify(h, k, m, ref.hmac(h2, k, m, hsizes(h2)[1])[:d])


def hkdf(g, hs=SHAS, full=True):
    for h in hs:
        d, b = hsizes(h)
        prk = g.bytes(d)
        lens = sorted(set(list(range(0, X(2 * d + 2, 5 * d))) + [k * d + e for k in (3, 4, 5, 15, 16, 17, 127, 128, 129, 252, 253, 254, 255) for e in (-1, 0, 1)]))
        lens = [n for n in lens if 0 <= n <= 255 * d]
        if not full:
            lens = [n for n in lens if n < 4 or n % d in (0, 1, d - 1)]
        def f(s, i):
            s.hkdf_exp(h, prk if i % 4 else g.bytes(d), g.bytes(g.r.choice([0, 1, 10, b, 80])), lens[i])
        batches(g, h + ": HKDF output lengths", len(lens), f, 6)
        info = g.bytes(13)
        s = g.new(h + ": prefixes of one expansion")
        for n in (0, 1, d - 1, d, d + 1, 2 * d, 7 * d + 3, 255 * d):
            s.hkdf_exp(h, prk, info, n)
        pl = [d, d + 1, b - 1, b, b + 1, 2 * b, 300]
        s = g.new(h + ": lengths of the pseudorandom key and of info")
        for n in pl:
            if n >= d:
                s.hkdf_exp(h, g.bytes(n), g.bytes(g.r.randrange(200)), 2 * d + 1)
        for n in range(0, X(20, 300)):
            s.hkdf_exp(h, prk, g.bytes(n), d + 3)
        for n in (b - d - 2, b - d - 1, b - d, b, 2 * b, 1000):
            if n >= 0:
                s.hkdf_exp(h, prk, g.bytes(n), 3 * d)
        s = g.new(h + ": extraction")
        for salt in (b"", b"\0", bytes(d), bytes(b), g.bytes(d), g.bytes(b), g.bytes(b + 1), g.bytes(300)):
            for ikm in (b"", b"\0", g.bytes(22), g.bytes(b), g.bytes(b + 1), g.bytes(2 * b + 40)):
                s.hkdf_ext(h, salt, ikm, d)
        for n in range(0, X(24, 140)):
            s.hkdf_ext(h, g.bytes(n), g.bytes(g.r.randrange(60)), d)


# ------------------------------------------------------------------ AES
def aes(g):
    for alg, kl in AES.items():
        def f(s, i):
            s.blk_new(1, alg, g.bytes(kl))
            for _ in range(3):
                s.blk(1, g.bytes(16))
        batches(g, alg + ": random keys and blocks", X(150, 2000), f, 15)
        # key and block bytes one at a time
        s = g.new(alg + ": single bits of block")
        s.blk_new(1, alg, g.rnd(kl))
        base = g.rnd(16)
        for i in range(128):
            m = bytearray(base)
            m[i // 8] ^= 1 << (i % 8)
            s.blk(1, m)
        s = g.new(alg + ": every byte value at every block position")
        s.blk_new(1, alg, g.rnd(kl))
        for i in range(16):
            for v in range(0, 256, X(16, 1)):
                m = bytearray(16)
                m[i] = v | (i if not THOROUGH else 0)
                s.blk(1, m)
        def f3(s, i):
            k = bytearray(kl)
            k[i // 8] = 1 << (i % 8)
            s.blk_new(1, alg, k).blk(1, base)
        batches(g, alg + ": single bits of key", 8 * kl, f3, 32)
        for _ in range(X(8, 16)):
            g.new("iterated " + alg).chain(alg, g.rnd(kl + 16), X(15000, 100000))
        # states within the encryption that have something special
        nr = kl // 4 + 6
        for _ in range(X(3, 12)):
            s = g.new(alg + ": special states in every round")
            key = g.bytes(kl)
            s.blk_new(1, alg, key)
            for r in range(1, nr + 1):
                for subbed in (False, True):
                    for _ in range(X(3, 8)):
                        s.blk(1, ref.aes_before(key, r, special_state(g), subbed))
        # one cipher object, asked again and in another order
        s = g.new(alg + ": repeated use of one object")
        s.blk_new(1, alg, g.rnd(kl))
        ms = [g.bytes(16) for _ in range(12)]
        for _ in range(60):
            s.blk(1, g.r.choice(ms))
    # objects with related keys side by side
    s = g.new("ciphers with related keys side by side")
    k = g.rnd(32)
    s.blk_new(1, "aes128", k[:16]).blk_new(2, "aes192", k[:24]).blk_new(3, "aes256", k)
    s.blk_new(4, "aes128", k[16:]).blk_new(5, "aes256", k[16:] + k[:16])
    m = g.rnd(16)
    for _ in range(40):
        s.blk(g.r.randrange(1, 6), m if g.r.random() < .7 else g.rnd(16))


def special_state(g):
    """columns or rows of few different bytes"""
    pats = ["aaaa", "abab", "aabb", "abba", "aaab", "aaba", "abaa", "baaa", "0000", "000a", "00a0", "0a00", "a000", "0aa0", "fffa", "abcd", "0ab0", "8888"]
    def one():
        v = {"0": 0, "f": 255, "8": 128}
        return [v.setdefault(c, g.r.choice([0, 1, 0x1b, 0x52, 0x63, 127, 128, 255, g.r.randrange(256)])) for c in g.r.choice(pats)]
    k = g.r.randrange(4)
    cols = [one()] * 4 if k == 0 else [one() for _ in range(4)]
    if k == 1:
        cols = [[cols[c][r] for c in range(4)] for r in range(4)]
    if k == 2:
        cols[1:] = [list(g.rnd(4)) for _ in range(3)]
        g.r.shuffle(cols)
    return [x for c in cols for x in c]


# ------------------------------------------------------------------ ChaCha20 stream
def stream_positions(g, far=True):
    def f(s, i):
        s.st_new(1, g.bytes(32), g.bytes(12)).st_take(1, g.r.choice([1, 63, 64, 65, 128, 200, 300]))
    batches(g, "keystream of random keys and nonces", X(120, 2000), f, 6)
    k, n = g.rnd(32), g.rnd(12)
    s = g.new("key and nonce bits")
    for i in range(0, 352, X(3, 1)):
        kk, nn = bytearray(32), bytearray(12)
        (kk if i < 256 else nn)[(i % 256) // 8] = 1 << (i % 8)
        s.st_new(1, kk, nn).st_take(1, 64)
    s = g.new("all one keystream, in order")
    s.st_new(1, k, n)
    for _ in range(X(20, 200)):
        s.st_take(1, 997)
    for blk in (255, 256, 257, 511, 65535, 65536) if far else (255, 256):
        s = g.new("positions about block %d" % blk)
        s.st_new(1, g.rnd(32), g.rnd(12)).st_skip(1, 64 * blk - 70).st_take(1, 200)
    for _ in range(X(6, 40)):
        p = g.r.randrange(1 << X(22, 25))
        s = g.new("position %d" % p)
        s.st_new(1, g.rnd(32), g.rnd(12)).st_skip(1, p).st_take(1, 80).st_enc(1, g.rnd(70), 70).st_dec(1, g.rnd(7), 7)
    s = g.new("positions reached by Iterator::nth")
    s.st_new(1, g.rnd(32), g.rnd(12))
    for nn in (0, 1, 61, 0, 63, 64, 65, 1000, 4095, 20000, 5):
        s.st_nth(1, nn)
        s.st_take(1, 3)
    for _ in range(X(8, 16)):
        g.new("iterated streams").chain("stream", g.rnd(310), X(12000, 60000))


def stream_far(g):
    """positions at which 24-bit block counters or 32-bit byte counters would wrap"""
    for p in [(1 << 30), (1 << 32)] + X([], [(1 << 33), (1 << 34) + (1 << 31), (1 << 35)]):
        s = g.new("positions about byte %d" % p)
        s.st_new(1, g.rnd(32), g.rnd(12)).st_skip(1, p - 100).st_take(1, 300)
        s.st_enc(1, g.rnd(20), 20)


def stream_jumps(g, how):
    """positions about every power of two, reached by how (st_jump or st_skip)"""
    out = []
    for p in [1 << k for k in range(14, 38)] + [(1 << 38) - 400] + [g.r.randrange(1 << 20, 1 << 38) for _ in range(8)]:
        s = g.new("stream at byte %d" % p)
        r = g.r.randrange(1, 70)
        s.st_new(1, g.rnd(32), g.rnd(12)).st_take(1, r).op(how, 1, p - r - 100)
        s.st_take(1, 300).st_enc(1, g.rnd(20), 20)
        s.limit = 800
        out.append((p, s))
    return out


def stream_history(g, n, far=False):
    for off in range(0, 65):
        s = g.new("offset %d against piece lengths" % off)
        for i, m in enumerate((0, 1, 63 - off, 64 - off, 65 - off, 128 - off, 129, g.r.randrange(200))):
            if m < 0:
                continue
            s.st_new(1, g.rnd(32), g.rnd(12))
            s.st_take(1, off) if i % 2 else s.st_enc(1, g.bytes(off), off)
            (s.st_enc if i % 3 else s.st_dec)(1, g.bytes(m), m)
            s.st_take(1, 3)
    for off in (0, 1, 63, 64, 100):
        for m in (256, 320, 512, 576, 1000, 1024, 1280, 2048, 4096, 8192, 65536):
            if not far and m > 5000:
                continue
            s = g.new("offset %d against %d bytes" % (off, m))
            for kind in ("enc", "dec", "take"):
                s.st_new(1, g.rnd(32), g.rnd(12)).st_take(1, off)
                s.st_take(1, m) if kind == "take" else s.op("st_" + kind, 1, g.rnd(m), m)
                s.st_take(1, 3)
    for i in range(n):
        s = g.new("history of draws and encryptions on several streams")
        ns = 1 + g.r.randrange(3)
        k = g.rnd(32)
        for o in range(ns):
            s.st_new(o, k if g.r.random() < .6 else g.rnd(32), bytes(11) + bytes([o % 2]))
        for _ in range(14):
            o = g.r.randrange(ns)
            m = g.r.choice([0, 0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 192, g.r.randrange(300)])
            kind = g.r.randrange(6)
            if kind == 0:
                s.st_take(o, m)
            elif kind == 1:
                s.st_nth(o, m)
            elif kind == 2 and m:
                # a failed call in between
                s.st_enc(o, g.bytes(m), m - 1)
            elif kind == 3:
                s.st_dec(o, g.bytes(m), m)
            else:
                s.st_enc(o, g.bytes(m), m)
    # sender and receiver with different splittings
    for i in range(n // 4):
        s = g.new("sender and receiver split the message differently")
        k, nn, d = g.rnd(32), g.rnd(12), g.bytes(200 + g.r.randrange(300))
        s.st_new(1, k, nn).st_new(2, k, nn)
        for p in split(g, d):
            s.st_enc(1, p, len(p))
        for p in split(g, ref.xor(d, b"".join(ref.chacha_block(k, j, nn) for j in range(9)))):
            s.st_dec(2, p, len(p))


# ------------------------------------------------------------------ AEAD
def alens(g, full):
    if full:
        return [(p, a) for p in range(0, 70) for a in (0, 1, 15, 16, 17, 40)] + [(p, a) for a in range(0, 66) for p in (0, 1, 16, 31)]
    return [(p, a) for p in (0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300) for a in (0, 1, 15, 16, 17, 33)] + \
           [(p, a) for a in range(0, 50) for p in (0, 5)] + [(p, 13) for p in range(0, 140)]


def aead_seal(g, algs):
    for alg in algs:
        kl = 32 if alg == "chachapoly" else AES.get(alg[4:], 16)
        lens = alens(g, THOROUGH)
        def f(s, i):
            p, a = lens[i]
            if i % 6 == 0:
                s.aead_new(1, alg, g.bytes(kl))
            s.aead_seal(1, g.bytes(12), g.bytes(a), g.bytes(p), p)
        batches(g, alg + ": lengths of message and associated data", len(lens), f, 6)
        s = g.new(alg + ": larger messages")
        s.aead_new(1, alg, g.rnd(kl))
        for p, a in ((1000, 0), (0, 1000), (4096, 4096), (4080, 20), (4097, 1), (X(9000, 70000), 3)):
            s.aead_seal(1, g.rnd(12), g.rnd(a), g.rnd(p), p)
        s = g.new(alg + ": bits of the nonce")
        s.aead_new(1, alg, g.rnd(kl))
        for i in range(96):
            n = bytearray(12)
            n[i // 8] = 1 << (i % 8)
            s.aead_seal(1, n, b"", bytes(20), 20)
        s.aead_seal(1, b"\xff" * 12, b"", bytes(40), 40)
        if alg in ("chachapoly", "gcm-aes128", "gcm-aes192", "gcm-aes256"):
            for _ in range(8):
                g.new("iterated " + alg).chain(alg, g.rnd(420), X(10000 if alg == "chachapoly" else 4000, 60000))


def fix_windows(n):
    """windows of the keystream of n 16-byte blocks around counter boundaries"""
    pts = {0, 16 * n - 48}
    for e in range(8, 32):
        for unit in (16, 64):
            for d in (-2, -1, 0, 1):
                p = ((1 << e) + d) * unit - 16
                if 0 <= p and p + 48 <= 16 * n:
                    pts.add(p)
    return sorted(pts)


def aead_long(g, alg, n, an=3):
    kl = 32 if alg == "chachapoly" else AES.get(alg[4:], 16)
    s = g.new("%s: message of %d 16-byte blocks" % (alg, n))
    s.aead_new(1, alg, g.rnd(kl))
    w = [p for p in fix_windows(n)]
    if len(w) > 40:
        w = w[:10] + w[-30:]
    s.aead_fix(1, g.rnd(12), g.rnd(16), an, g.rnd(16), n, [(p, 48) for p in w])


def poly_targets(r, s):
    p = ref.P1305
    t = list(range(0, 8)) + [p - k for k in range(1, 8)]
    t += [(1 << 128) + k for k in (-3, -1, 0, 1, 4)] + [(1 << 129) - 1, 1 << 129, (1 << 130) - 6]
    t += [((1 << 128) - s) % p, ((1 << 128) - s - 1) % p, ((1 << 128) * 2 - s) % p, ((1 << 128) * 3 - s) % p, ((1 << 128) * 4 - s) % p]
    t += [((1 << (26 * k)) - 1) % p for k in range(1, 6)] + [(p - (1 << (26 * k))) % p for k in range(1, 5)]
    t += [((1 << (26 * k)) - s) % p for k in range(1, 5)] + [((1 << (32 * k)) - s) % p for k in range(1, 4)]
    t += [((1 << 128) - 1 - s + k) % p for k in range(-6, 12)]
    return t


# Under the key 0,1,..,31: nonces (as numbers) for which one 26-bit limb (r0..r4) or 32-bit word (w0..w3)
# of Poly1305's r, or a word (s0..s3) of its s, is 0 or as large as it can be.  Found by search.
POLY_NONCES = {
    "r0=0": [109147873, 132796794, 208818176],
    "r0=max": [4998965, 33900216, 59368919],
    "r1=0": [3787234, 4671778, 5708525],
    "r1=max": [891744, 1582371, 1810834],
    "r2=0": [517912, 1301408, 2039797],
    "r2=max": [156214, 306636, 515247],
    "r3=0": [81897, 163312, 2154285],
    "r3=max": [118256, 374319, 449143],
    "r4=0": [1279764, 1465567, 2493881],
    "r4=max": [453649, 485701, 1840468],
    "s0=max": [729177846, 961810637, 1867806497],
    "s1=max": [391751239],
    "s2=0": [2621219553],
    "s2=max": [2403357433, 2519657138],
    "w0=0": [132796794, 283805157, 569731360],
    "w0=max": [33900216, 59368919, 268796535],
    "w1=0": [198732756, 202006648, 216572267],
    "w1=max": [48970560, 91311275, 231665444],
    "w2=0": [6184059, 51056944, 128989623],
    "w2=max": [86132, 15773233, 96043555],
    "w3=0": [1465567, 81361187, 120161738],
    "w3=max": [140949713, 409224389, 409511532],
}


def poly_extreme_keys(g):
    key = bytes(range(32))
    for what, ns in POLY_NONCES.items():
        for n in ns:
            nonce = n.to_bytes(8, "little") + bytes(4)
            poly_crafted(g, 1, pair=(key, nonce))
            s = g.new("Poly1305 key with " + what)
            s.aead_new(1, "chachapoly", key)
            ks = ref.cp_ks(key, nonce, 700)
            for m in (0, 1, 15, 16, 17, 32, 63, 64, 65, 128, 300, 640):
                for fill in (0, 255, None):
                    ct = g.rnd(m) if fill is None else bytes([fill]) * m
                    s.aead_seal(1, nonce, g.bytes(g.r.choice([0, 0, 16, 5])), ref.xor(ct, ks[:m]), m)


def poly_crafted(g, count, reject=False, pair=None):
    """messages on which the Poly1305 accumulator ends at (or passes through) chosen values"""
    made = 0
    for _ in range(count):
        key, nonce = pair or (g.rnd(32), g.rnd(12))
        r, sv = ref.poly_rs(key, nonce)
        rinv = pow(r, ref.P1305 - 2, ref.P1305)
        s = g.new("Poly1305 accumulator at extreme values")
        s.aead_new(1, "chachapoly", key)
        for t in poly_targets(r, sv):
            for attempt in range(12):
                aad = b"" if attempt % 2 else g.rnd(g.r.randrange(20))
                pre = g.rnd(16 * g.r.randrange(1, 3))
                final = g.r.random() < .7
                n = len(pre) + 16
                acc = ref.poly_acc(r, ref.pad16(aad) + pre)
                if final:
                    lens = int.from_bytes(len(aad).to_bytes(8, "little") + n.to_bytes(8, "little") + b"\1", "little")
                    want = (t * rinv - lens) % ref.P1305
                else:
                    want = t
                c = (want * rinv - acc) % ref.P1305
                if c >> 128 == 1:
                    ct = pre + (c - (1 << 128)).to_bytes(16, "little")
                    if not reject:
                        pt = ref.xor(ct, ref.cp_ks(key, nonce, n))
                        s.aead_seal(1, nonce, aad, pt, n)
                    else:
                        tag = ref.cp_tag(key, nonce, aad, ct)
                        s.aead_open(1, nonce, aad, ct, tag, n, 165)
                        b = bytearray(tag)
                        b[g.r.choice([0, 15])] ^= g.r.choice([1, 128])
                        s.aead_open(1, nonce, aad, ct, b, n, 165)
                    made += 1
                    break
    return made


def ghash_crafted(g, n, opening=False):
    """associated data and ciphertext for which GHASH's state is special before or after a multiplication"""
    vals = [0, 1, 1 << 127, (1 << 128) - 1, 0xe1 << 120, (1 << 64) - 1, ((1 << 64) - 1) << 64, 1 << 63, 1 << 64, 2, 1 << 126, 0x87, 3 << 126]
    for _ in range(n):
        alg = g.r.choice(["gcm-aes128", "gcm-aes192", "gcm-aes256"])
        key, nonce = g.rnd(AES[alg[4:]]), g.rnd(12)
        h = int.from_bytes(ref.block(alg, key, bytes(16)), "big")
        hinv = ref.gfinv(h)
        ej = int.from_bytes(ref.block(alg, key, nonce + b"\0\0\0\1"), "big")
        s = g.new(alg + ": GHASH at special values")
        s.aead_new(1, alg, key)
        for v in vals + [h, ej, h ^ (1 << 127)]:
            y, parts = 0, [b"", b""]
            na, nc = g.r.choice([(1, 1), (0, 2), (2, 0), (0, 1), (1, 2), (2, 3), (0, 4)])
            at = g.r.randrange(na + nc + 1)
            lens = ((128 * na) << 64) | 128 * nc
            # where: before the multiplication with the block, after it, or in the tag
            where = g.r.randrange(4)
            for i in range(na + nc):
                x = g.r.getrandbits(128)
                if i == na + nc - 1 and where == 2:
                    x = y ^ ref.gfmul(ref.gfmul(v, hinv) ^ lens, hinv)      # GHASH is v
                elif i == na + nc - 1 and where == 3:
                    x = y ^ ref.gfmul(ref.gfmul(v ^ ej, hinv) ^ lens, hinv)  # the tag is v
                elif i >= at and where == 0:
                    x = y ^ v
                elif i >= at and where == 1:
                    x = y ^ ref.gfmul(v, hinv)
                y = ref.gfmul(y ^ x, h)
                parts[i >= na] += x.to_bytes(16, "big")
            aad, ct = parts
            if opening:
                tag = ref.gcm_tag(alg, key, nonce, aad, ct)
                bad = bytearray(tag)
                bad[g.r.randrange(16)] ^= 1 << g.r.randrange(8)
                s.aead_open(1, nonce, aad, ct, bad, len(ct), 3).aead_open(1, nonce, aad, ct, tag, len(ct), 3)
                s.aead_open(1, nonce, aad, ct, bytes(16), len(ct), 3)
            else:
                s.aead_seal(1, nonce, aad, ref.xor(ct, ref.gcm_ks(alg, key, nonce, len(ct))), len(ct))


def aead_open(g, algs, per):
    for alg in algs:
        kl = 32 if alg == "chachapoly" else AES.get(alg[4:], 16)
        for k in range(per):
            key, nonce = g.bytes(kl), g.bytes(12)
            n = g.r.choice([0, 1, 15, 16, 17, 32, 63, 64, 65, 100, 128, 200])
            a = g.r.choice([0, 1, 12, 16, 17, 32, 50])
            if k == 0:
                n, a = 40, 20
            if k == 1:
                n, a = 0, 0
            aad, ct = g.bytes(a), g.bytes(n)
            tag = ref.aead_tag(alg, key, nonce, aad, ct)
            fill = g.r.choice([0, 165, 255])
            s = g.new(alg + ": authentic input")
            op = lambda o=1, nonce=nonce, aad=aad, ct=ct, tag=tag: s.aead_open(o, nonce, aad, ct, tag, len(ct), fill)
            s.aead_new(1, alg, key)
            op()
            s = g.new(alg + ": tags of other lengths")
            s.aead_new(1, alg, key)
            for m in range(0, 16):
                op(tag=tag[:m])
            for ext in (b"\0", tag[:1], tag, bytes(16), bytes(240), bytes(256)):
                op(tag=tag + ext)
            op(tag=tag[1:]); op(tag=b"\0" + tag); op(tag=tag[1:] + tag[:1]); op(tag=tag[::-1]); op(tag=bytes(16)); op(tag=b"\xff" * 16)
            op()
            s = g.new(alg + ": tags wrong in one bit")
            s.aead_new(1, alg, key)
            for i in range(128):
                t = bytearray(tag); t[i // 8] ^= 1 << (i % 8)
                op(tag=t)
            op()
            s = g.new(alg + ": tags wrong in several bytes")
            s.aead_new(1, alg, key)
            for _ in range(X(40, 300)):
                t = bytearray(tag); x = g.r.randrange(1, 256); i, j = g.r.randrange(16), g.r.randrange(16)
                kind = g.r.randrange(5)
                if kind == 0:
                    t[i] ^= x; t[j] ^= x
                elif kind == 1:
                    t[i] = (t[i] + x) & 255; t[j] = (t[j] - x) & 255
                elif kind == 2:
                    t[i], t[j] = t[j], t[i]
                elif kind == 3:
                    t = bytearray(ref.xor(tag, bytes([x]) * 16))
                else:
                    t[i:] = g.rnd(16 - i)
                op(tag=t)
            s = g.new(alg + ": altered ciphertext, data, nonce and key")
            s.aead_new(1, alg, key)
            for i in range(0, 8 * n, X(max(1, 8 * n // 40), 1)):
                c = bytearray(ct); c[i // 8] ^= 1 << (i % 8)
                op(ct=bytes(c))
            for i in range(0, 8 * a, X(max(1, 8 * a // 24), 1)):
                c = bytearray(aad); c[i // 8] ^= 1 << (i % 8)
                op(aad=bytes(c))
            for i in range(0, 96, X(5, 1)):
                c = bytearray(nonce); c[i // 8] ^= 1 << (i % 8)
                op(nonce=bytes(c))
            for i in range(0, 8 * kl, X(29, 5)):
                c = bytearray(key); c[i // 8] ^= 1 << (i % 8)
                s.aead_new(2, alg, c)
                op(o=2)
            # moved boundaries and padding
            op(aad=aad + b"\0"); op(ct=ct + b"\0"); op(aad=aad + bytes(16)); op(ct=ct + bytes(16))
            if n:
                op(ct=ct[:-1]); op(aad=aad + ct[:1], ct=ct[1:]); op(aad=aad + ct, ct=b"")
                op(ct=ct[1:])
            if a:
                op(aad=aad[:-1]); op(aad=aad[:-1], ct=aad[-1:] + ct); op(aad=b"", ct=aad + ct); op(aad=aad[1:])
            op(aad=ct, ct=aad)
            if n >= 32:
                op(ct=ct[16:32] + ct[:16] + ct[32:])
            op(aad=ref.pad16(aad), ct=ct) if a % 16 else None
            op(ct=ref.pad16(ct)) if n % 16 else None
            op()
        # sealing, then opening what was sealed, on one object with failures in between
        for _ in range(per):
            key = g.bytes(kl)
            s = g.new(alg + ": sealing and opening on one object")
            s.aead_new(1, alg, key)
            for _ in range(6):
                nonce, aad, pt = g.bytes(12), g.bytes(g.r.randrange(40)), g.bytes(g.r.randrange(150))
                ct = ref.xor(pt, ref.aead_ks(alg, key, nonce, len(pt)))
                tag = ref.aead_tag(alg, key, nonce, aad, ct)
                s.aead_seal(1, nonce, aad, pt, len(pt))
                if g.r.random() < .5:
                    s.aead_open(1, nonce, aad, ct, tag[:15] + bytes([tag[15] ^ 1]), len(ct), 90)
                if g.r.random() < .3:
                    s.aead_seal(1, nonce, aad, pt, len(pt) + 1)
                s.aead_open(1, nonce, aad, ct, tag, len(ct), 91)


# ------------------------------------------------------------------ curves
def le(n):
    return (n % (1 << 256)).to_bytes(32, "little")


def u_specials():
    p = ref.P
    u = list(range(0, 22)) + [p + k for k in range(-20, 19)] + [2 * p + k for k in range(-3, 4)] + [(1 << 255) - 1, 1 << 255, (1 << 256) - 1, (1 << 255) + 9]
    u += [325606250916557431795983626356110631294008115727848805560023387167927233504,
          39382357235489614581723060781553021112529911719440698176882885853963445705823]
    for k in range(10):
        for e in (25 * k + (k + 1) // 2, 26 * k):
            if e < 255:
                u += [1 << e, (1 << e) - 1, p - (1 << e), (1 << 255) - 1 - (1 << e)]
    u += [sum(1 << (51 * i + 25) for i in range(5)), sum(((1 << 26) - 1) << (51 * i) for i in range(5)), sum(((1 << 25) - 1) << (51 * i + 26) for i in range(5)),
          sum(1 << (51 * i) for i in range(5)), sum(1 << (51 * i + 50) for i in range(5)) % (1 << 255)]
    return [le(x) for x in u]


def sk_specials():
    s = [bytes(32), b"\xff" * 32, le(1), le(8), le(1 << 254), le((1 << 255) - 1), le(ref.L), le(8 * ref.L), le((1 << 254) + 8)]
    s += [bytes([0x55] * 32), bytes([0xaa] * 32), bytes([0x88] * 32), bytes([0x77] * 32), bytes([0xf8] + [0xff] * 30 + [0x7f]), bytes([7] + [0] * 30 + [128])]
    return s


def x25519(g):
    us, ks = u_specials(), sk_specials()
    def f(s, i):
        s.x_dh(g.bytes(32) if i % 3 else g.r.choice(ks), us[i])
    batches(g, "X25519: special public values", len(us), f, 8)
    def f2(s, i):
        k = ks[i % len(ks)] if i < 3 * len(ks) else g.bytes(32)
        s.x_pk(k)
        s.x_dh(k, g.bytes(32))
    batches(g, "X25519: secret keys", X(3 * len(ks) + 60, 3000), f2, 8)
    s = g.new("X25519: bits of the secret key")
    for i in range(0, 256, X(5, 1)):
        s.x_dh(le(1 << i), le(9))
    s = g.new("X25519: bits of the public value")
    k = g.rnd(32)
    for i in range(0, 256, X(7, 1)):
        s.x_dh(k, le(1 << i))
    for i in range(0, 256, X(32, 4)):
        kk = bytearray(k); kk[i // 8] ^= 1 << (i % 8)
        s.x_dh(kk, us[9])
    for _ in range(X(8, 16)):
        g.new("X25519 iterated").chain("x25519", g.rnd(64), X(1500, 20000))
        g.new("X25519 public keys iterated").chain("xpk", g.rnd(32), X(700, 10000))
    # public values chosen so that the result is small, near the prime or sparse
    s = None
    i = 0
    targets = list(range(0, 40)) + [ref.P - k for k in range(1, 40)] + [1 << e for e in range(5, 255, 5)] + [(1 << e) - 1 for e in range(25, 255, 25)]
    # the upper limbs all ones, what is below at random
    near = []
    for e in range(3, 255):
        near += [ref.P - (1 << e) + g.r.choice([-1, 0, 1]), (1 << e) + g.r.randrange(1 << max(1, e - 20))][e % 2:][:1]
        for _ in range(X(2, 8)):
            near += [ref.P - 1 - g.r.randrange(1 << e), g.r.randrange(1 << e)]
    # runs of limbs that are all zeros or all ones, between random ones
    at = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230, 255]
    for lo in range(10):
        for hi in range(lo + 1, 11):
            t = g.r.randrange(ref.P)
            run = (1 << at[hi]) - (1 << at[lo])
            near += [t | run, t & ~run, (t | run) ^ (1 << at[lo]), (t & ~run) | (1 << at[lo])][::1 if hi - lo < 3 or THOROUGH else 2]
    near = [t for t in near if 0 <= t < ref.P]
    for t in (targets if THOROUGH else targets[:44] + targets[44::4]) + near:
        k = g.rnd(32)
        u = x_preimage(k, t)
        if u is not None:
            if i % 16 == 0:
                s = g.new("X25519: results at extreme values")
            i += 1
            s.x_dh(k, le(u))
    x25519_inner(g)


def limb_extremes(g):
    """numbers whose 26- and 25-bit limbs are all at, or next to, the ends of their range"""
    sizes = [26, 25] * 5
    at = [sum(sizes[:i]) for i in range(10)]
    def num(f):
        return sum(f(i) << at[i] for i in range(10)) % ref.P
    half = [1 << (b - 1) for b in sizes]
    t = [num(lambda i: half[i]), num(lambda i: half[i] - 1), num(lambda i: -half[i]), num(lambda i: half[i] * (-1) ** i), num(lambda i: (half[i] - 1) * -(-1) ** i), num(lambda i: 1), num(lambda i: -1)]
    for _ in range(X(6, 60)):
        t.append(num(lambda i: g.r.choice([-half[i], -half[i] + 1, half[i], half[i] - 1, 0, -1, 1])))
    for i in range(10):
        t += [num(lambda j: half[j] - (j > i) if j >= i else 0), num(lambda j: -half[j] if j >= i else 0), num(lambda j: half[j] - 1 if j <= i else 0)]
    return t


def x25519_inner(g):
    """public values for which a number within the first steps of the ladder is extreme"""
    p = ref.P
    targets = list(range(6)) + [p - k for k in range(1, 6)] + limb_extremes(g)
    for e in range(20, 256, X(20, 3)):
        targets += [(1 << e) % p, p - (1 << (e - 1)), p - 1 - g.r.randrange(1 << (e - 1))]
    us = []
    for t in targets:
        us += [t - 1, t + 1, t * pow(4, -1, p), t * pow(4 * 121666, -1, p), t * pow(4 * 121665, -1, p)]
        r = ref.sqrt(t)
        if r is not None:
            us += [r - 1, r + 1, r * pow(2, -1, p)]
            for q in (r, -r):
                w = ref.sqrt((1 + q) % p)
                if w is not None:
                    us.append(w)
    us = [u % p for u in us]
    if not THOROUGH:
        us = g.r.sample(us, min(len(us), 2000))
    batches(g, "X25519: extreme values within the ladder", len(us), lambda s, i: s.x_dh(g.rnd(32), le(us[i])), 16)


def ladder(k, u):
    p = ref.P
    x2, z2, x3, z3 = 1, 0, u, 1
    for t in range(k.bit_length() - 1, -1, -1):
        if (k >> t) & 1:
            x2, x3, z2, z3 = x3, x2, z3, z2
        a, b, c, d = x2 + z2, x2 - z2, x3 + z3, x3 - z3
        aa, bb = a * a % p, b * b % p
        e = aa - bb
        da, cb = d * a, c * b
        x3, z3 = (da + cb) ** 2 % p, u * (da - cb) ** 2 % p
        x2, z2 = aa * bb % p, e * (aa + 121665 * e) % p
        if (k >> t) & 1:
            x2, x3, z2, z3 = x3, x2, z3, z2
    return x2 * pow(z2, p - 2, p) % p


LT = 2 ** 253 - 55484635554744707071703875581767296995   # order of the large subgroup of the twist


def x_preimage(k, t):
    """u with X25519(k, u) = t, or None"""
    kk = (int.from_bytes(k, "little") & ((1 << 254) - 8)) | (1 << 254)
    for order in (ref.L, LT):
        inv = pow(kk, -1, order)
        u = ladder(inv, t)
        if ladder(kk, u) == t % ref.P:
            return u
    return None


def dh_laws(g):
    laws(g, ["dh", "dh3", "clamp"], X(8, 16), X(2500, 30000))
    # the same, call by call
    def f(s, i):
        a, b, c = g.bytes(32), g.bytes(32), g.bytes(32)
        pa, pb = le(ladder(cl(a), 9)), le(ladder(cl(b), 9))
        s.x_dh(a, pb).x_dh(b, pa)
        u = g.bytes(32)
        v = int.from_bytes(u, "little") % (1 << 255) % ref.P
        s.x_dh(a, u).x_dh(a, le(v))
        if v < 19:
            s.x_dh(a, le(v + ref.P))
        aa, uu = bytearray(a), bytearray(u)
        aa[0] ^= g.r.randrange(8); aa[31] ^= g.r.randrange(4) << 6; uu[31] ^= 128
        s.x_dh(aa, u).x_dh(a, uu).x_dh(aa, uu)
    batches(g, "both parties, fixed bits, top bit", X(24, 200), f, 2)
    for v in range(19):
        s = g.new("u, u + p and u with the top bit")
        k = g.rnd(32)
        s.x_dh(k, le(v)).x_dh(k, le(v + ref.P)).x_dh(k, le(v + (1 << 255))).x_dh(k, le(v + ref.P + (1 << 255)))
    s = g.new("low-order values and their aliases, both ways")
    for u in u_specials()[:30]:
        s.x_dh(g.rnd(32), u)


def cl(k):
    return (int.from_bytes(k, "little") & ((1 << 254) - 8)) | (1 << 254)


def ed_sign(g):
    def f(s, i):
        sk = g.bytes(32) if i % 5 else g.r.choice(sk_specials())
        s.ed_pk(sk)
        s.ed_sign(sk, g.bytes(i if i < 200 else g.r.randrange(1000)))
    batches(g, "Ed25519: keys and signatures of messages of every length", X(150, 1500), f, 4)
    s = g.new("Ed25519: signing is deterministic")
    sk = g.rnd(32)
    for m in (b"a", b"b", b"a", b"", b"a", b""):
        s.ed_sign(sk, m).ed_pk(sk)
    for n in (63, 64, 79, 80, 95, 96, 111, 112, 127, 128, 129, 1023, 4096, 10000):
        g.new("Ed25519: message of %d bytes" % n).ed_sign(g.rnd(32), g.rnd(n))
    for _ in range(X(8, 16)):
        g.new("Ed25519 signatures iterated").chain("edsign", g.rnd(32) + g.rnd(64), X(1500, 20000))
        g.new("Ed25519 public keys iterated").chain("edpk", g.rnd(32), X(700, 10000))


def ed_bulk(g):
    """very many signatures: rare carries in the arithmetic of scalars"""
    for _ in range(X(500, 3000)):
        g.new("Ed25519: many signatures").ed_bulk(g.bytes(32), g.rnd(g.r.randrange(40)), 500)


# Under the secret key 0,1,..,31: messages (as 4-byte numbers) for which one 21-bit limb (0..6) of the
# nonce r, the challenge k or the signature's S is 0 or all ones.  Found by search.
SCALAR_EDGES = {
    "S0=0": [5597397, 6898662, 7405556, 8419138, 8959839, 11184507, 11339521, 14627814],
    "S0=max": [3437042, 8863807, 10258486, 12652678, 13877826, 15112564, 17978720, 21515263],
    "S1=0": [262413, 413412, 3494163, 6229213, 7048176, 7138178, 7895521, 10296047],
    "S1=max": [73022, 324540, 2665384, 5657417, 6655149, 7732409, 8587196, 9005516],
    "S2=0": [6756275, 11000557, 11167159, 14972683, 16422517, 17837460, 19557010, 26723700],
    "S2=max": [1554254, 1866737, 2588342, 3697324, 4201561, 6260614, 8111870, 8349183],
    "S3=0": [509976, 4439888, 6863387, 7592112, 9925568, 10407454, 10468477, 13636911],
    "S3=max": [2691673, 4094313, 5575172, 11664351, 14936941, 15234351, 16423010, 17111260],
    "S4=0": [905231, 1285005, 3387446, 5782957, 7783542, 8099067, 11188895, 11935093],
    "S4=max": [1424807, 2812437, 8241382, 8323973, 10874995, 13819624, 15319646, 16161527],
    "S5=0": [2122992, 4432345, 4510429, 5917194, 7705403, 8695817, 11781764, 19196721],
    "S5=max": [180943, 6046273, 7059820, 7771408, 8068262, 8210421, 9215926, 9716841],
    "S6=0": [1923304, 2849119, 4605620, 5616700, 6981427, 7648698, 11412121, 12999915, 33020260, 35144155, 36267580,
        37988146, 39717015, 39899730, 40383681, 42134574, 42306890, 42617694, 43501049, 46070762, 46740002, 47285764,
        47626490, 49453017, 61625450, 64884562, 65164951, 66253363, 66639476, 67745973, 68075014],
    "S6=max": [1467231, 4216406, 8070612, 11856607, 13734283, 17260858, 20476570, 23602309, 31225431, 32618311,
        33223394, 33301508, 34261633, 34923585, 39717454, 43537744, 43710892, 46320445, 48300127, 49227912, 49313637,
        57305295, 57613365, 62021788, 62029058, 64395503, 68853011],
    "k0=0": [1647311, 5867785, 6121627, 8440633, 10208885, 15262305, 16571479, 20950020],
    "k0=max": [3811573, 4712116, 5201334, 8415729, 11792075, 11855590, 13486835, 13762309],
    "k1=0": [265739, 5788009, 9533827, 10403712, 11283854, 13759518, 13993400, 15688227],
    "k1=max": [21071, 1383687, 7253164, 9959248, 11354695, 15183046, 22054422, 23009484],
    "k2=0": [3008313, 5307550, 6290549, 6578154, 10831619, 17129559, 18461898, 24473923],
    "k2=max": [1017894, 4860619, 6328626, 9181513, 11656695, 12752441, 12925130, 18170928],
    "k3=0": [2300177, 3299754, 7635653, 8606737, 9371740, 10705430, 11935222, 12624215],
    "k3=max": [1511171, 4441722, 6223918, 9882186, 14057291, 15931134, 16270496, 18052106],
    "k4=0": [3204014, 4823851, 7370813, 8332432, 9673970, 10799480, 11985983, 13442415],
    "k4=max": [908362, 1216617, 1701203, 5017283, 6946179, 13906698, 15962347, 19045724],
    "k5=0": [1167250, 2551038, 3459959, 7902433, 8801016, 14570549, 17329930, 17793243],
    "k5=max": [1684356, 1938882, 3772445, 4802100, 6394885, 7392450, 7399752, 7810401],
    "k6=0": [2146625, 10964521, 13232080, 15147473, 18091565, 29539252, 32145390, 36167824, 39141918, 45148143,
        46502933, 51306143, 52976494, 55357345, 58271326, 60005151, 62564789, 65650748, 66947567],
    "k6=max": [893856, 8394816, 9341053, 12844155, 12874334, 14170950, 15950889, 16708884, 35860350, 36855102,
        38968095, 40215756, 42831332, 43058203, 43668491, 46448287, 50442583, 53604647, 55228442, 55703149, 57363454,
        57406127, 59058970, 62140957, 62454018, 64070178, 66167572, 67424946, 68883763],
    "r0=0": [22717, 13231966, 13328276, 22402449, 23875712, 24134586],
    "r0=max": [3093646, 3602251, 11623564, 13531467, 14085287, 17765487, 20093978, 20539439],
    "r1=0": [2163610, 5715862, 7421442, 9092317, 9233563, 13070695, 14504809, 14801274],
    "r1=max": [5219438, 5298561, 6672044, 9127806, 9242321, 10238852, 15558189, 16716266],
    "r2=0": [1209577, 2751662, 3142378, 7711544, 10029699, 10993130, 11882348, 12569059],
    "r2=max": [446838, 1930207, 2038424, 3479702, 3748930, 6727015, 8482003, 9327817],
    "r3=0": [819320, 1846741, 5883317, 6343176, 7008621, 7139513, 10774824, 11189384],
    "r3=max": [548969, 3925940, 12490627, 13099455, 13151133, 13452235, 16293198, 20352004],
    "r4=0": [2507771, 3855458, 8862357, 11571357, 14099779, 14293331, 15847261, 22059650],
    "r4=max": [344031, 2211725, 3587294, 5955825, 7445642, 10183687, 10900249, 11159285],
    "r5=0": [2063104, 5140348, 5283287, 8058708, 13187855, 15325291, 16141138, 24489184],
    "r5=max": [4176833, 4906237, 6781538, 9864623, 11460029, 12441677, 14516519, 16952598],
    "r6=0": [8274837, 8790572, 9034789, 13660107, 17802110, 20979661, 22769490, 24578624, 31524066, 31670511, 32714311,
        34092108, 35240798, 36979057, 37297366, 40786140, 40934950, 42914539, 43532974, 47004486, 51515550, 52433646,
        53466944, 59068435, 59075944, 59700256, 61706654, 61728802, 64816463, 65182488],
    "r6=max": [799816, 5138265, 6994840, 7690229, 8041262, 14436961, 17093438, 18410153, 32199765, 36774953, 40943536,
        43191664, 44442669, 45095929, 45232011, 46447892, 47495250, 48240647, 49876709, 51645457, 52863202, 58663292,
        59450219, 63948260, 65259683, 65513201],
}


def ed_edges(g):
    """signatures for which a 21-bit limb of one of the scalars involved is 0 or all ones, verified too"""
    sk = bytes(range(32))
    pk = ref.ed_pk(sk)
    for what, ns in SCALAR_EDGES.items():
        s = g.new("Ed25519: limbs of scalars, " + what)
        for n in ns:
            m = n.to_bytes(4, "little")
            s.ed_sign(sk, m).ed_verify(pk, m, ref.ed_sign(sk, m))


def ed_valid(g):
    """signatures RFC 8032 accepts, not only those the library itself makes"""
    def f(s, i):
        sk, m = g.bytes(32), g.bytes(i if i < 150 else g.r.randrange(600))
        pk = ref.ed_pk(sk)
        s.ed_verify(pk, m, ref.ed_sign(sk, m))
    batches(g, "Ed25519: honest signatures", X(120, 1000), f, 4)
    ks = [0, 1, 2, 8, ref.L - 1, ref.L - 2, (1 << 252) - 1, 1 << 252, (1 << 252) + 1, 15, 16, (1 << 128) - 1]
    ks += [int("10" * 126, 2) % ref.L, int("1000" * 63, 2) % ref.L, int("0111" * 63, 2), int("01111" * 50, 2), int("11110" * 50, 2)]
    s = g.new("Ed25519: chosen nonce scalars")
    for r in ks:
        sk, m = g.rnd(32), g.rnd(20)
        a, _ = ref.secret(sk)
        s.ed_verify(ref.ed_pk(sk), m, ref.ed_sign_with(a, ref.ed_pk(sk), r, m))
    # public key of order 1: every scalar S is valid with R = [S]B
    s = g.new("Ed25519: identity as public key, chosen S")
    pk = ref.penc(ref.ID)
    for v in ks + [g.r.randrange(ref.L) for _ in range(X(20, 300))] + [(1 << e) for e in range(0, 253, X(12, 1))] + [(1 << e) - 1 for e in range(1, 253, X(12, 1))]:
        s.ed_verify(pk, g.bytes(5), ref.penc(ref.pmul(v, ref.B)) + le(v))
    # small and mixed order public keys
    T = ref.torsion()
    for j in range(8):
        s = g.new("Ed25519: public keys and R with a component of small order")
        for _ in range(X(6, 40)):
            a, m = g.r.randrange(ref.L), g.rnd(8)
            for A, e in ((T[j], 0), (ref.padd(ref.pmul(a, ref.B), T[j]), a)):
                pk = ref.penc(A)
                r = g.r.randrange(ref.L)
                # R with another component; [S]B = R + [k]A holds when the components cancel
                for i in range(8):
                    R = ref.penc(ref.padd(ref.pmul(r, ref.B), T[i]))
                    k = ref.hml(R, pk, m)
                    if (i + k * j) % 8 == 0 or g.r.random() < .1:
                        s.ed_verify(pk, m, R + le((r + k * e) % ref.L))


def ed_invalid(g):
    T = ref.torsion()
    def alias(s, i):
        sk, m = g.bytes(32), g.bytes(g.r.randrange(60))
        pk, sig = ref.ed_pk(sk), ref.ed_sign(sk, m)
        S = int.from_bytes(sig[32:], "little")
        s.ed_verify(pk, m, sig)
        for k in range(1, 16):
            if S + k * ref.L < 1 << 256:
                s.ed_verify(pk, m, sig[:32] + le(S + k * ref.L))
        for b in (0x20, 0x40, 0x80, 0xe0, 0x10):
            s.ed_verify(pk, m, sig[:63] + bytes([sig[63] ^ b]))
        s.ed_verify(pk, m, sig[:32] + le(-S % ref.L))
        s.ed_verify(pk, m, sig[:31] + bytes([sig[31] ^ 128]) + sig[32:])
        s.ed_verify(pk[:31] + bytes([pk[31] ^ 128]), m, sig)
    batches(g, "Ed25519: scalars not below the group order, flipped signs", X(16, 100), alias, 1)
    # alias scalars that are accepted by every other test: S in [L, 2^253)
    s = g.new("Ed25519: scalar at the group order")
    for v in (0, 1, 2, 1 << 60, 1 << 128, 1 << 200, ref.L - 1):
        R = ref.penc(ref.pmul(v, ref.B))
        for pk in (ref.penc(ref.ID),):
            for S in (v, v + ref.L, v + 2 * ref.L, v + 7 * ref.L):
                if S < 1 << 256:
                    s.ed_verify(pk, b"m", R + le(S))
    s = g.new("Ed25519: scalars just below and above the group order")
    for d in list(range(-3, 4)) + [1 << 8 * k for k in range(31)] + [-(1 << 8 * k) for k in range(16)]:
        S = ref.L + d
        s.ed_verify(ref.penc(ref.ID), b"", ref.penc(ref.pmul(S % ref.L, ref.B)) + le(S))
    # encodings of the public key that are not canonical: y >= p, x = 0 with sign bit
    s = g.new("Ed25519: public key encodings that are not canonical")
    for y in range(0, 19):
        for sign in (0, 1):
            A = ref.recover(y, sign)
            for pk in (le(y + ref.P + (sign << 255)), le(y + (sign << 255))):
                for S in (0, 1, 5):
                    # R = [S]B - [k]A for the point every lenient decoder would see
                    if A is None:
                        s.ed_verify(pk, b"m", ref.penc(ref.pmul(S, ref.B)) + le(S))
                        continue
                    for R in {ref.penc(ref.padd(ref.pmul(S, ref.B), ref.pneg(ref.pmul(q, A)))) for q in (0, 1, 2, 3, 4, 5, 6, 7)} if y in (0, 1) else {small_fit(S, A, pk, b"m")}:
                        s.ed_verify(pk, b"m", R + le(S))
    for x in (1, ref.P - 1):
        pk = le(x + (1 << 255))
        s = g.new("Ed25519: x = 0 with the sign bit")
        for S in (0, 3):
            for sg in (ref.ID, T[4]):
                s.ed_verify(pk, b"m", ref.penc(ref.padd(ref.pmul(S, ref.B), sg)) + le(S))
        for m in (b"", b"1", b"2", b"3", b"4", b"5"):
            s.ed_verify(pk, m, ref.penc(ref.ID) + le(0))
    # R not canonical
    s = g.new("Ed25519: R encodings that are not canonical")
    for R in (le(1 + ref.P), le(1 + (1 << 255)), le(ref.P - 1 + (1 << 255)), le(ref.P), le(1), le(ref.P - 1), le(0), le((1 << 255) - 1)):
        for pk in [ref.penc(t) for t in T] + [ref.ed_pk(g.rnd(32))]:
            for m in (b"", b"x", b"y"):
                s.ed_verify(pk, m, R + le(0))
    # not on the curve
    s = g.new("Ed25519: public keys that are no points")
    n = 0
    y = 2
    while n < X(20, 100):
        if ref.recover(y, 0) is None:
            n += 1
            s.ed_verify(le(y), b"m", ref.penc(ref.pmul(5, ref.B)) + le(5))
            s.ed_verify(le(y | (1 << 255)), b"m", ref.penc(ref.ID) + le(0))
        y = y + 1 if y < 30 else g.r.randrange(ref.P)
    # bits
    for _ in range(X(1, 4)):
        sk, m = g.rnd(32), g.rnd(40)
        pk, sig = ref.ed_pk(sk), ref.ed_sign(sk, m)
        for lo in range(0, 512, 64):
            s = g.new("Ed25519: one bit of the signature")
            for i in range(lo, lo + 64, X(2, 1)):
                b = bytearray(sig); b[i // 8] ^= 1 << (i % 8)
                s.ed_verify(pk, m, b)
        s = g.new("Ed25519: one bit of message and key")
        for i in range(0, 320, X(9, 1)):
            b = bytearray(m); b[i // 8] ^= 1 << (i % 8)
            s.ed_verify(pk, b, sig)
        for i in range(0, 256, X(9, 1)):
            b = bytearray(pk); b[i // 8] ^= 1 << (i % 8)
            s.ed_verify(b, m, sig)
        s = g.new("Ed25519: signatures of other lengths")
        for n in list(range(0, 64, X(5, 1))) + [63, 32]:
            s.ed_verify(pk, m, sig[:n])
        for ext in (b"\0", sig, bytes(64), bytes(192), bytes(256)):
            s.ed_verify(pk, m, sig + ext)
        s.ed_verify(pk, m, b"\0" + sig).ed_verify(pk, m, sig[32:] + sig[:32]).ed_verify(pk, m, bytes(64)).ed_verify(pk, m, b"\xff" * 64)
        s.ed_verify(pk, m + b"\0", sig).ed_verify(pk, m[:-1], sig).ed_verify(pk, b"", sig).ed_verify(pk, m, sig)
        sk2 = g.rnd(32)
        s.ed_verify(ref.ed_pk(sk2), m, sig).ed_verify(pk, m, ref.ed_sign(sk2, m)).ed_verify(pk, m, sig[:32] + ref.ed_sign(sk2, m)[32:])
        s.ed_verify(pk, m, ref.ed_sign(sk, m + b"!")[:32] + sig[32:])
    # equation off by a point of small order
    for j in range(1, 8):
        s = g.new("Ed25519: equation off by a point of small order")
        for _ in range(X(3, 20)):
            a, m, r = g.r.randrange(ref.L), g.rnd(8), g.r.randrange(ref.L)
            pk = ref.penc(ref.pmul(a, ref.B))
            R = ref.penc(ref.padd(ref.pmul(r, ref.B), T[j]))
            s.ed_verify(pk, m, R + le((r + ref.hml(R, pk, m) * a) % ref.L))
            # and by a point of large order
            Q = ref.penc(ref.padd(ref.pmul(r, ref.B), ref.B))
            s.ed_verify(pk, m, Q + le((r + ref.hml(Q, pk, m) * a) % ref.L))


def ed_crafted(g, n):
    """signatures that satisfy every condition but one, made with the secret scalar"""
    for _ in range(n):
        a, m, r = g.r.randrange(1, ref.L), g.rnd(g.r.randrange(40)), g.r.randrange(1, ref.L)
        A, R = ref.pmul(a, ref.B), ref.pmul(r, ref.B)
        pk, npk = ref.penc(A), ref.penc(ref.pneg(A))
        Re, nR = ref.penc(R), ref.penc(ref.pneg(R))
        fit = lambda Renc, pkenc, s, t: Renc + le((s * r + t * ref.hml(Renc, pkenc, m) * a) % ref.L)
        s = g.new("Ed25519: one condition broken, the scalar made to fit")
        s.ed_verify(pk, m, fit(Re, pk, 1, 1))
        # sign of R, of the key, of both; R or the key left out
        for Renc, pkenc, x, y in ((nR, pk, 1, 1), (Re, pk, 1, -1), (Re, npk, 1, 1), (nR, npk, 1, 1), (nR, npk, -1, -1), (nR, pk, -1, 1), (Re, pk, 0, 1), (Re, pk, 1, 0), (Re, pk, -1, -1)):
            s.ed_verify(pkenc, m, fit(Renc, pkenc, x, y))
        # another part of the challenge
        for k in (ref.hml(pk, Re, m), ref.hml(Re, m), ref.hml(pk, m), ref.hml(Re, pk), ref.hml(Re, pk, m[:-1]), ref.hml(Re, pk, m + b"\0")):
            s.ed_verify(pk, m, Re + le((r + k * a) % ref.L))
        # parts of R and of the scalar
        good = fit(Re, pk, 1, 1)
        S = int.from_bytes(good[32:], "little")
        for e in (0, 1, 3, 127, 128, 251, 252):
            s.ed_verify(pk, m, Re + le(S ^ (1 << e)))
        for i in range(0, 32, 5):
            s.ed_verify(pk, m, good[:i] + bytes([good[i] ^ (1 << g.r.randrange(8))]) + good[i + 1:])
        # the same x with another y and the same y: neighbours of R
        for q in (ref.B, ref.pneg(ref.B)):
            Q = ref.penc(ref.padd(R, q))
            s.ed_verify(pk, m, fit(Q, pk, 1, 1))


def ed_compare(g):
    """R against what is recomputed: with a public key of order 1 nothing depends on the bytes of R"""
    pk = ref.penc(ref.ID)
    for _ in range(X(2, 10)):
        v = g.r.randrange(1, ref.L)
        R = ref.penc(ref.pmul(v, ref.B))
        s = g.new("Ed25519: R wrong in one bit, nothing else depending on it")
        for i in range(256):
            t = bytearray(R); t[i // 8] ^= 1 << (i % 8)
            s.ed_verify(pk, b"m", bytes(t) + le(v))
        s.ed_verify(pk, b"m", R + le(v))
        s = g.new("Ed25519: R wrong in several bytes, nothing else depending on it")
        for _ in range(150):
            t = bytearray(R); x = g.r.randrange(1, 256); i, j = g.r.randrange(32), g.r.randrange(32)
            kind = g.r.randrange(5)
            if kind == 0:
                t[i] ^= x; t[j] ^= x
            elif kind == 1:
                t[i] = (t[i] + x) & 255; t[j] = (t[j] - x) & 255
            elif kind == 2:
                t[i], t[j] = t[j], t[i]
            elif kind == 3:
                t[i:] = g.rnd(32 - i)
            else:
                t[:i] = g.rnd(i)
            s.ed_verify(pk, b"m", bytes(t) + le(v))
        # and the scalar: another multiple with the same R
        s = g.new("Ed25519: scalars wrong in one bit, nothing else depending on it")
        for i in range(256):
            s.ed_verify(pk, b"m", R + le(v ^ (1 << i)))


def ed_nonpoints(g):
    """Public keys that are no points, for which the decoder's test value is sparse: it differs from
    zero in one byte or one bit only."""
    p = ref.P
    im = pow(2, (p - 1) // 4, p)
    s = None
    count = 0
    for k in list(range(0, 255)) if THOROUGH else list(range(0, 255, 2)) + [253, 254]:
        for val in {1 << k, p - (1 << k), (g.r.randrange(1, 256) << (k // 8 * 8)) % p}:
            for c in (im - 1, im + 1, p - im - 1, p + 1 - im):
                # u (c) = val with u = y^2 - 1
                y2 = (val * pow(c, -1, p) + 1) % p
                y = ref.sqrt(y2)
                if y is None or ref.recover(y, 0) is not None:
                    continue
                if count % 20 == 0:
                    s = g.new("Ed25519: public keys that are nearly points")
                count += 1
                for S in (0, 3):
                    s.ed_verify(le(y), b"m", ref.penc(ref.pmul(S, ref.B)) + le(S))
                s.ed_verify(le(y), b"m", le(0) + le(0))
    return count


def small_fit(S, A, pk, m):
    # R such that R = [S]B - [h(R)]A cannot be solved for points of large order; just a plausible one
    return ref.penc(ref.padd(ref.pmul(S, ref.B), ref.pneg(A)))


# ------------------------------------------------------------------ comparison
def v16(g):
    base = g.rnd(16)
    for x in (base, bytes(16), b"\xff" * 16):
        s = g.new("equal arrays, and every single byte difference")
        s.v16(x, x)
        for i in range(16):
            for v in range(256):
                if v != x[i] and (THOROUGH or x is base or v & (v - 1) == 0 or v > 250):
                    y = bytearray(x); y[i] = v
                    s.v16(x, y)
    s = g.new("every pair of bit differences")
    x = g.rnd(16)
    for i in range(128):
        for j in range(i + 1, 128, X(3, 1)):
            y = bytearray(x); y[i // 8] ^= 1 << (i % 8); y[j // 8] ^= 1 << (j % 8)
            s.v16(x, y)
    s = g.new("lengths")
    for n in list(range(0, 70)) + [255, 256, 257, 271, 272, 273, 528, 65536 + 16]:
        s.v16(bytes(16), Rep(b"\0", n)).v16(x, (x * 40)[:n] if n <= 600 else Rep(x, n))
    s.v16(x, b"\0" + x).v16(x, x[1:]).v16(x, x[:8])
    s = g.new("differences that cancel in sums")
    for _ in range(X(1500, 20000)):
        y = bytearray(x)
        k = g.r.randrange(5)
        v = g.r.randrange(1, 256)
        ix = g.r.sample(range(16), g.r.choice([2, 2, 3, 4, 8, 16]))
        for c, i in enumerate(ix):
            if k == 0:
                y[i] ^= v
            elif k == 1:
                y[i] = (y[i] + (v if c % 2 else -v)) & 255
            elif k == 2:
                y[i] = x[ix[c - 1]]
            elif k == 3:
                y[i] ^= 1 << g.r.randrange(8)
            else:
                y[i] = g.r.randrange(256)
        s.v16(x, y)


# ------------------------------------------------------------------ panics
LENS = [0, 1, 2, 11, 12, 13, 15, 16, 17, 23, 24, 25, 27, 28, 29, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 272, 288]


def panics(g):
    for alg in AES:
        s = g.new(alg + ": key lengths")
        for n in list(range(0, 70)) + [128, 192, 256, 272, 280, 288]:
            s.blk_new(1, alg, g.bytes(n))
            if n == AES[alg]:
                s.blk(1, g.rnd(16))
    for alg in ("gcm-aes128", "gcm-aes192", "gcm-aes256", "chachapoly"):
        kl = AES.get(alg[4:], 32)
        s = g.new(alg + ": key lengths")
        for n in list(range(0, 70)) + [128, 256, 272, 280, 288]:
            s.aead_new(1, alg, g.bytes(n))
            if n == kl:
                s.aead_seal(1, g.rnd(12), b"", b"abc", 3)
        key = g.rnd(kl)
        s = g.new(alg + ": nonce and output lengths, with good calls in between")
        s.aead_new(1, alg, key)
        def good():
            n, a, ct = g.rnd(12), g.rnd(5), g.rnd(21)
            s.aead_seal(1, n, a, ct, 21)
            s.aead_open(1, n, a, ct, ref.aead_tag(alg, key, n, a, ct), 21, 7)
        for n in list(range(0, 40)) + [128, 256, 268]:
            non = g.rnd(n)
            s.aead_seal(1, non, b"x", b"hello", 5)
            s.aead_open(1, non, b"x", b"hello", g.rnd(16), 5, 9)
            if n % 9 == 3:
                good()
        for a, b in ((0, 1), (1, 0), (5, 4), (4, 5), (16, 17), (17, 16), (16, 32), (32, 16), (64, 65), (65, 64), (0, 64), (64, 0), (256, 0), (0, 256), (300, 44), (16, 15), (15, 16)):
            non = g.rnd(12)
            s.aead_seal(1, non, b"x", g.rnd(a), b)
            ct = g.rnd(a)
            s.aead_open(1, non, b"x", ct, ref.aead_tag(alg, key, non, b"x", ct), b, 9)
            s.aead_open(1, non, b"x", ct, g.rnd(16), b, 9)
            s.aead_open(1, g.rnd(11), b"x", ct, b"", b, 9)
            good()
    s = g.new("stream: key, nonce and output lengths")
    for n in list(range(0, 50)) + [64, 256, 288]:
        s.st_new(1, g.rnd(n), g.rnd(12)).st_new(2, g.rnd(32), g.rnd(n))
    s.st_new(1, g.rnd(32), g.rnd(12))
    for a, b in [(x, y) for x in (0, 1, 5, 63, 64, 65, 128, 256) for y in (0, 1, 4, 5, 6, 63, 64, 65, 128, 256)]:
        (s.st_enc if (a + b) % 2 else s.st_dec)(1, g.rnd(a), b)
        if a % 3 == 0:
            s.st_take(1, 1 + b % 7)
    for h in SHAS + ["toy:20:64", "toy:64:64"]:
        d, b = hsizes(h)
        s = g.new(h + ": digest output lengths")
        for n in sorted(set(LENS + list(range(max(0, d - 3), d + 4)))):
            s.hash_new(1, h).hash_up(1, b"abc").hash_fin(1, n)
        s = g.new(h + ": HKDF lengths")
        for n in sorted(set(LENS + [d - 1, d, d + 1])):
            s.hkdf_ext(h, b"salt", b"ikm", n)
            s.hkdf_exp(h, g.rnd(n), b"info", 5)
            s.hkdf_exp(h, g.rnd(n), b"info", 0)
        for n in (255 * d + 1, 255 * d + 2, 256 * d, 256 * d + 1, 257 * d, 511 * d, 65536 + d):
            s.hkdf_exp(h, g.rnd(d), b"", n)
            s.hkdf_exp(h, g.rnd(d - 1), b"", n)
        for n in (255 * d, 255 * d - 1, 254 * d, 254 * d - 1, 254 * d + 1, 253 * d):
            s.hkdf_exp(h, g.rnd(d), b"", n)
        s.hkdf_exp(h, g.rnd(d), b"", 3)
        s = g.new(h + ": MAC inputs of any length are accepted")
        for n in LENS + [1000]:
            s.hmac_verify(h, g.rnd(n), g.rnd(3), g.rnd(n))
            s.hmac_new(1, h, g.rnd(n)).hmac_up(1, g.rnd(n)).hmac_tag(1)
    s = g.new("curve functions: lengths")
    for n in list(range(0, 70)) + [256, 288]:
        s.x_pk(g.rnd(n)).x_dh(g.rnd(n), g.rnd(32)).x_dh(g.rnd(32), g.rnd(n)).x_dh(g.rnd(n), g.rnd(n))
        s.ed_pk(g.rnd(n)).ed_sign(g.rnd(n), g.rnd(7))
        s.ed_verify(g.rnd(n), b"m", g.rnd(64)).ed_verify(g.rnd(n), b"m", g.rnd(63)).ed_verify(le(1), b"m", g.rnd(n))
        s.v16(g.rnd(16), g.rnd(n))
    s = g.new("curve functions: extreme inputs")
    for k in sk_specials():
        for u in u_specials()[::X(5, 1)]:
            s.x_dh(k, u)
    s = g.new("Ed25519: extreme inputs")
    for k in sk_specials():
        s.ed_pk(k).ed_sign(k, b"").ed_sign(k, b"\xff" * 100)
        s.ed_verify(k, b"m", k + k).ed_verify(k, b"", bytes(64)).ed_verify(k, b"", b"\xff" * 64)
    for u in u_specials():
        s.ed_verify(u, b"m", u + bytes(32))
        s.ed_verify(u, b"m", le(1) + u[:31] + bytes([u[31] & 31]))
    # arguments of many lengths that must be accepted
    def f(s, i):
        n = g.r.choice(LENS + [300, 1000])
        m = g.r.choice(LENS)
        h = g.r.choice(SHAS)
        d, b = HASHES[h]
        s.hash_one(h, g.bytes(n)).hmac_one(h, g.bytes(m), g.bytes(n)).hkdf_ext(h, g.bytes(n), g.bytes(m), d)
        s.hkdf_exp(h, g.bytes(d + m), g.bytes(n), m).ed_sign(g.bytes(32), g.bytes(n)).x_dh(g.bytes(32), g.bytes(32))
        s.ed_verify(g.bytes(32), g.bytes(n), g.bytes(64))
        s.aead_new(1, "gcm-aes256", g.bytes(32)).aead_seal(1, g.bytes(12), g.bytes(m), g.bytes(n), n)
        s.aead_new(2, "chachapoly", g.bytes(32)).aead_seal(2, g.bytes(12), g.bytes(m), g.bytes(n), n)
    batches(g, "accepted inputs of many lengths", X(60, 1000), f, 3)


def probes(g):
    s = g.new("GCM message length limit")
    lim = (1 << 36) - 32
    for n in (0x1000, lim - 1, lim - 17, lim, lim + 1, lim + 31, lim + 32, lim + 33, 1 << 37):
        if n > 0x1000 or True:
            s.gcm_probe(n, 0)
    s = g.new("message length limits, on both ways")
    cl = (1 << 38) - 64
    for dir in ("seal", "open"):
        for n in (0x1000, 1 << 32, 1 << 36, 1 << 37, cl - 63, cl - 1, cl, cl + 1, cl + 64, cl + 65, 1 << 39, 1 << 40):
            s.aead_long("chachapoly", dir, n)
        for n in (0x1000, 1 << 31, 1 << 32, lim - 17, lim - 1, lim, lim + 1, lim + 31, lim + 32, 1 << 37, 1 << 38):
            s.aead_long("gcm-toyid", dir, n)


def aead_mac(g, alg, an):
    s = g.new("%s: %d MB of associated data, sealed" % (alg, an >> 16))
    s.limit = 800
    s.aead_new(1, alg, g.rnd(32 if alg == "chachapoly" else AES.get(alg[4:], 16))).aead_mac(1, g.rnd(12), g.rnd(16), an)


def aead_rep(g, alg, an, cn, good=True, tagged=None):
    """opening under associated data of an blocks a ciphertext of cn blocks; tagged: the number of
    blocks of associated data the tag is for, if another"""
    key = g.rnd(32 if alg == "chachapoly" else AES.get(alg[4:], 16))
    nonce, ax, cx = g.rnd(12), g.rnd(16), g.rnd(16)
    s = g.new("%s: %d MB of associated data, %d MB of ciphertext" % (alg, an >> 16, cn >> 16))
    s.limit = 800
    tag = ref.tag_rep(alg, key, nonce, ax, an if tagged is None else tagged, cx, cn)
    if not good:
        tag = bytes([tag[0] ^ 1]) + tag[1:]
    s.aead_new(1, alg, key).aead_rep(1, nonce, ax, an, cx, cn, tag)


def probe_last(g):
    g.new("the longest GCM message there is reaches its last block").gcm_probe((1 << 36) - 33, 1)


# ------------------------------------------------------------------ purity
def purity(g, n):
    algs = ["gcm-aes128", "gcm-aes192", "gcm-aes256", "chachapoly"]
    for _ in range(n):
        s = g.new("one set of objects under a long mixed history")
        base = g.rnd(32)
        objs = {}
        for o in range(4):
            alg = g.r.choice(algs)
            kl = AES.get(alg[4:], 32)
            key = base[:kl] if g.r.random() < .6 else g.rnd(kl)
            s.aead_new(o, alg, key)
            objs[o] = (alg, key)
        s.blk_new(10, "aes128", base[:16]).blk_new(11, "aes256", base)
        s.st_new(20, base, bytes(12)).st_new(21, base, bytes(12))
        s.hash_new(30, "sha256").hmac_new(31, "sha256", base)
        nonces = [g.rnd(12) for _ in range(2)]
        msgs = [g.bytes(k) for k in (0, 16, 17, 64, 70)]
        for _ in range(30):
            o = g.r.randrange(4)
            alg, key = objs[o]
            nonce, m, aad = g.r.choice(nonces), g.r.choice(msgs), g.r.choice(msgs)
            k = g.r.randrange(12)
            if k < 3:
                s.aead_seal(o, nonce, aad, m, len(m))
            elif k < 5:
                s.aead_open(o, nonce, aad, m, ref.aead_tag(alg, key, nonce, aad, m), len(m), 1)
            elif k == 5:
                s.aead_open(o, nonce, aad, m, bytes(16), len(m), 2)
            elif k == 6:
                s.aead_seal(o, nonce[:11], aad, m, len(m))
                s.aead_seal(o, nonce, aad, m, len(m) + 1)
            elif k == 7:
                s.blk(g.r.choice([10, 11]), g.r.choice(msgs)[:0] + g.r.choice([bytes(16), msgs[1]]))
            elif k == 8:
                s.st_enc(g.r.choice([20, 21]), m, len(m))
            elif k == 9:
                s.hash_up(30, m).hmac_up(31, m)
            elif k == 10:
                s.x_dh(base, g.r.choice([le(9), le(5)])).ed_pk(base)
            else:
                s.hmac_one("sha256", base[:g.r.choice([16, 32])], m).hash_one("sha256", m).hkdf_exp("sha256", base, m, 40)
        s.hash_fin(30, 32).hmac_tag(31)


def purity_curves(g, n):
    """the curve functions with few keys, values and messages in many orders"""
    for _ in range(n):
        s = g.new("curve functions with recurring arguments")
        base = g.rnd(32)
        sks = [base, base[:31] + bytes([base[31] ^ 1]), bytes([base[0] ^ 8]) + base[1:], g.rnd(32)]
        pks = [le(9), g.rnd(32)] + [le(ladder(cl(k), 9)) for k in sks[:2]]
        eds = [ref.ed_pk(k) for k in sks]
        msgs = [b"", b"a", g.rnd(40), g.rnd(40)]
        sigs = [(eds[i], m, ref.ed_sign(sks[i], m)) for i in range(3) for m in msgs[:3]]
        for _ in range(40):
            k = g.r.randrange(8)
            if k < 2:
                s.x_dh(g.r.choice(sks), g.r.choice(pks))
            elif k == 2:
                s.x_pk(g.r.choice(sks))
            elif k == 3:
                s.ed_pk(g.r.choice(sks))
            elif k == 4:
                s.ed_sign(g.r.choice(sks), g.r.choice(msgs))
            elif k == 5:
                s.ed_verify(*g.r.choice(sigs))
            elif k == 6:
                (a, m, x), (b, _, y) = g.r.choice(sigs), g.r.choice(sigs)
                s.ed_verify(a, m, x[:32] + y[32:])
            else:
                (a, m, x), (b, _, y) = g.r.choice(sigs), g.r.choice(sigs)
                s.ed_verify(b, m, x)


def purity_macs(g, n):
    """one-shot functions with few keys and messages, and hashes of equal lengths, in many orders"""
    for _ in range(n):
        s = g.new("MACs and key derivation with recurring arguments")
        base = g.rnd(140)
        keys = [base[:k] for k in (0, 20, 64, 65, 128, 129)] + [base[:19] + b"x", base[1:21]]
        msgs = [base[:k] for k in (0, 16, 100)] + [base[3:19], base[:15] + b"y"]
        hs = [g.r.choice(SHAS) for _ in range(2)]
        for _ in range(40):
            h = g.r.choice(hs)
            d, b = HASHES[h]
            k, m = g.r.choice(keys), g.r.choice(msgs)
            c = g.r.randrange(6)
            if c == 0:
                s.hash_one(h, m)
            elif c == 1:
                s.hmac_one(h, k, m)
            elif c == 2:
                s.hmac_verify(h, k, m, ref.hmac(h, k, m, b))
            elif c == 3:
                s.hmac_verify(h, k, m, ref.hmac(h, g.r.choice(keys), g.r.choice(msgs), b))
            elif c == 4:
                s.hkdf_ext(h, k, m, d)
            else:
                s.hkdf_exp(h, base[:d + g.r.choice([0, 1])], m, g.r.choice([1, d, d + 1]))


def wear(g):
    """the same call very many times on one object, others in between"""
    n = X(70000, 300000)
    for alg in ("gcm-aes128", "gcm-aes256", "chachapoly"):
        key = g.rnd(AES.get(alg[4:], 32))
        for kind in ("seal", "open", "reject", "refuse", "mixed"):
            s = g.new("%s: one object used very often (%s)" % (alg, kind))
            s.aead_new(1, alg, key)
            nonce, aad, m = g.rnd(12), g.rnd(7), g.rnd(20)
            tag = ref.aead_tag(alg, key, nonce, aad, m)
            bad = bytes([tag[0] ^ 4]) + tag[1:]
            seal = ("aead_seal", 1, nonce, aad, m, 20)
            good = ("aead_open", 1, nonce, aad, m, tag, 20, 7)
            fail = ("aead_open", 1, nonce, aad, m, bad, 20, 7)
            refuse = ("aead_seal", 1, nonce[:11], aad, m, 20)
            for c, k in {"seal": [(seal, n)], "open": [(good, n)], "reject": [(fail, n)], "refuse": [(refuse, 5000)],
                         "mixed": [(seal, 300), (fail, 300), (good, 300), (refuse, 300), (seal, 40000), (fail, 40000)]}[kind]:
                s.times(k, *c)
            for c in (seal, good, fail, good, seal):
                s.op(*c)
    for alg in ("aes128", "aes192", "aes256"):
        s = g.new(alg + ": one object used very often")
        s.blk_new(1, alg, g.rnd(AES[alg]))
        a, b = g.rnd(16), g.rnd(16)
        s.times(n, "blk", 1, a).times(n, "blk", 1, b).blk(1, a)
    for h in SHAS:
        d = HASHES[h][0]
        k, m = g.rnd(20), g.rnd(30)
        tag = ref.hmac(h, k, m, HASHES[h][1])
        s = g.new(h + ": functions called very often")
        s.times(n, "hash_one", h, m).times(n, "hmac_one", h, k, m).times(n, "hmac_verify", h, k, m, tag)
        s.times(n, "hmac_verify", h, k, m, tag[:-1] + bytes([tag[-1] ^ 1])).hmac_verify(h, k, m, tag)
        s.times(n // 4, "hkdf_ext", h, k, m, d).times(n // 4, "hkdf_exp", h, g.rnd(d), m, d + 1)
    sk, pk = g.rnd(32), g.rnd(32)
    few = X(4000, 70000)
    g.new("X25519 called very often").times(few, "x_dh", sk, pk).times(few, "x_pk", sk).x_dh(sk, pk)
    sig = ref.ed_sign(sk, b"m")
    s = g.new("Ed25519 called very often")
    s.times(few, "ed_sign", sk, b"m").times(few, "ed_pk", sk).ed_sign(sk, b"n")
    s = g.new("Ed25519 called very often")
    s.times(few, "ed_verify", ref.ed_pk(sk), b"m", sig).times(few, "ed_verify", ref.ed_pk(sk), b"n", sig).ed_verify(ref.ed_pk(sk), b"m", sig)
    s = g.new("arrays compared very often")
    a = g.rnd(16)
    s.times(n, "v16", a, a).times(n, "v16", a, a[:15] + bytes([a[15] ^ 1])).v16(a, a)


def nearby(g, d, k):
    """k values differing little from d: in one bit, in the order of two bytes, in length"""
    out = []
    for _ in range(k):
        e = bytearray(d)
        c = g.r.randrange(4)
        if c == 0 and len(e) > 1:
            i, j = g.r.sample(range(len(e)), 2)
            e[i], e[j] = e[j], e[i]
        elif c == 1 and len(e) > 1:
            # the sum and the exclusive or of all bytes stay
            i, j = g.r.sample(range(len(e)), 2)
            m = 1 << g.r.randrange(8)
            e[i] ^= m; e[j] ^= m
        else:
            if e:
                i = g.r.choice([0, len(e) - 1, g.r.randrange(len(e))])
                e[i] ^= 1 << g.r.randrange(8)
        out.append(bytes(e))
    return out


def neighbours(g, n):
    """calls whose arguments differ in little from those of the calls before"""
    def vary(s, name, args, fixed=(), k=3):
        """the call, each argument varied, the first call again in between"""
        s.op(name, *args)
        for i, a in enumerate(args):
            if isinstance(a, bytes) and i not in fixed:
                for b in nearby(g, a, k):
                    s.op(name, *args[:i], b, *args[i + 1:])
                s.op(name, *args)
    for _ in range(n):
        sk, pk = g.rnd(32), g.rnd(32)
        s = g.new("curve functions with nearly equal arguments")
        vary(s, "x_dh", (sk, pk)); vary(s, "x_pk", (sk,)); vary(s, "ed_pk", (sk,)); vary(s, "ed_sign", (sk, g.rnd(40)))
        m = g.rnd(40)
        vary(s, "ed_verify", (ref.ed_pk(sk), m, ref.ed_sign(sk, m)), k=4)
        h = g.r.choice(SHAS)
        d, b = HASHES[h]
        s = g.new(h + ": functions with nearly equal arguments")
        k, m = g.rnd(g.r.choice([16, 32, b, b + 1])), g.rnd(g.r.choice([16, b, b + 1, 200]))
        vary(s, "hash_one", (h, m), k=8); vary(s, "hmac_one", (h, k, m), k=4)
        vary(s, "hmac_verify", (h, k, m, ref.hmac(h, k, m, b)), k=6)
        vary(s, "hkdf_ext", (h, k, m, d)); vary(s, "hkdf_exp", (h, g.rnd(d), m, 2 * d + 1))
        for alg in ("gcm-aes128", "gcm-aes192", "gcm-aes256", "chachapoly"):
            s = g.new(alg + ": objects and calls with nearly equal arguments")
            key = g.rnd(AES.get(alg[4:], 32))
            keys = [key] + nearby(g, key, 3)
            for o, x in enumerate(keys):
                s.aead_new(o, alg, x)
            nonce, aad, m = g.rnd(12), g.rnd(20), g.rnd(g.r.choice([16, 33, 64]))
            for o in (0, 1, 2, 3, 0):
                s.aead_seal(o, nonce, aad, m, len(m))
            vary(s, "aead_seal", (0, nonce, aad, m, len(m)))
            for o, x in enumerate(keys):
                vary(s, "aead_open", (o, nonce, aad, m, ref.aead_tag(alg, x, nonce, aad, m), len(m), 9), k=2)
            for o, x in enumerate(keys):
                s.aead_open(g.r.randrange(4), nonce, aad, m, ref.aead_tag(alg, x, nonce, aad, m), len(m), 9)
        s = g.new("block ciphers and streams of nearly equal keys")
        o = 0
        for alg in ("aes128", "aes192", "aes256"):
            key, m = g.rnd(AES[alg]), g.rnd(16)
            for x in [key] + nearby(g, key, 4) + [key]:
                s.blk_new(o, alg, x).blk(o, m)
                o += 1
            vary(s, "blk", (o - 1, m))
            for i in range(o - 6, o):
                s.blk(i, m)
        key, nonce = g.rnd(32), g.rnd(12)
        for x, y in [(key, nonce)] + [(x, nonce) for x in nearby(g, key, 3)] + [(key, x) for x in nearby(g, nonce, 3)] + [(key, nonce)]:
            s.st_new(o, x, y).st_take(o, 70)
            o += 1


def threads(g, n):
    for _ in range(n):
        s = g.new("cipher objects shared between threads")
        objs = {}
        for o, alg in enumerate(["gcm-aes128", "gcm-aes256", "chachapoly"]):
            key = g.rnd(AES.get(alg[4:], 32))
            s.aead_new(o, alg, key)
            objs[o] = (alg, key)
        s.blk_new(5, "aes192", g.rnd(24))
        parts = []
        for t in range(4):
            p = Session("thread")
            b = 100 * (t + 1)
            p.hash_new(b, "sha512").st_new(b + 1, g.rnd(32), g.rnd(12)).hmac_new(b + 2, "sha256", g.rnd(20))
            for _ in range(25):
                o = g.r.randrange(3)
                alg, key = objs[o]
                m, nonce = g.bytes(g.r.randrange(200)), g.rnd(12)
                k = g.r.randrange(8)
                if k < 3:
                    p.aead_seal(o, nonce, b"data", m, len(m))
                elif k < 5:
                    ct = m[:40]
                    p.aead_open(o, nonce, b"d", ct, ref.aead_tag(alg, key, nonce, b"d", ct), len(ct), 3)
                elif k == 5:
                    p.blk(5, g.rnd(16))
                elif k == 6:
                    p.hash_up(b, m).hmac_up(b + 2, m)
                else:
                    p.st_enc(b + 1, m, len(m))
            p.hash_fin(b, 64).hmac_tag(b + 2)
            p.x_dh(g.rnd(32), le(9)).ed_pk(g.rnd(32))
            parts.append(p)
        s.parallel(parts)
        m = g.bytes(50)
        for o in range(3):
            s.aead_seal(o, bytes(12), b"after", m, 50)
        s.blk(5, bytes(16))


def contention(g, n):
    """the same kind of call in several threads at a time, over and over, with other arguments in each"""
    few, many = X(3000, 20000), X(4000, 40000)
    def at_once(what, objs, f, k=8):
        for _ in range(n):
            s = g.new("%s in %d threads at a time" % (what, k))
            objs(s)
            parts = []
            for t in range(k):
                p = Session("thread")
                f(p, t)
                parts.append(p)
            s.parallel(parts)
    none = lambda s: None
    def sizes(t):
        return [0, 16, 70, 130, 300, 1000][t % 6]
    at_once("X25519", none, lambda p, t: p.times(few, "x_dh", g.rnd(32), g.rnd(32)).times(few, "x_pk", g.rnd(32)).times(few, "x_dh", g.rnd(32), g.rnd(32)))
    def ed(p, t):
        sk, m = g.rnd(32), g.rnd(50)
        pk, sig = ref.ed_pk(sk), ref.ed_sign(sk, m)
        p.times(few, "ed_pk", sk).times(few, "ed_verify", pk, m, sig).times(few, "ed_verify", pk, m + b".", sig)
    at_once("Ed25519", none, ed)
    at_once("Ed25519 signatures", none, lambda p, t: p.times(5 * few, "ed_sign", g.rnd(32), g.rnd(20 * t)))
    for h in SHAS:
        d, b = HASHES[h]
        def macs(p, t):
            k, m = g.rnd([32, b, b + 5][t % 3]), g.bytes(sizes(t))
            tag = ref.hmac(h, k, m, b)
            p.times(many, "hash_one", h, m).times(many, "hmac_one", h, k, m).times(many, "hmac_verify", h, k, m, tag)
            p.times(many, "hmac_verify", h, k, m, tag[:-1] + bytes([tag[-1] ^ 1])).times(many // 4, "hkdf_exp", h, g.rnd(d), m, 3 * d + t).times(many, "hkdf_ext", h, k, m, d)
        at_once(h, none, macs)
        def own(p, t):
            for i in range(12):
                p.hash_new(100 * t + i, h).hmac_new(100 * t + 50 + i, h, g.rnd(b + i - 3))
            for _ in range(80):
                p.hash_up(100 * t + g.r.randrange(12), g.rnd(g.r.randrange(2 * b))).hmac_up(100 * t + 50 + g.r.randrange(12), g.rnd(g.r.randrange(2 * b)))
            for i in range(12):
                p.hash_fin(100 * t + i, d).hmac_tag(100 * t + 50 + i)
        at_once(h + " objects", none, own)
    for alg in ("aes128", "aes192", "aes256"):
        at_once(alg, lambda s: s.blk_new(1, alg, g.rnd(AES[alg])).blk_new(2, alg, g.rnd(AES[alg])),
                lambda p, t: p.times(many, "blk", 1 + t % 2, g.rnd(16)).times(many, "blk", 2, g.rnd(16)).times(many, "blk", 1, g.rnd(16)).blk_new(100 + t, alg, g.rnd(AES[alg])).times(many, "blk", 100 + t, g.rnd(16)))
    for alg in ("gcm-aes128", "gcm-aes192", "gcm-aes256", "chachapoly"):
        keys = [g.rnd(AES.get(alg[4:], 32)) for _ in range(2)]
        def aead(p, t):
            for o in (1, 2, 1):
                nonce, aad, m = g.rnd(12), g.bytes(sizes(t + 1)), g.bytes(sizes(t))
                tag = ref.aead_tag(alg, keys[o - 1], nonce, aad, m)
                p.times(many // 10, "aead_seal", o, nonce, aad, m, len(m)).times(many // 10, "aead_open", o, nonce, aad, m, tag, len(m), 7)
                p.times(many // 10, "aead_open", o, nonce, aad, m, tag[:15] + bytes([tag[15] ^ 1]), len(m), 7)
        at_once(alg, lambda s: [s.aead_new(1 + i, alg, x) for i, x in enumerate(keys)], aead)
    def streams(p, t):
        for i in range(3):
            p.st_new(100 * t + i, g.rnd(32), g.rnd(12))
        for _ in range(150):
            p.st_enc(100 * t + g.r.randrange(3), g.rnd(150), 150).st_take(100 * t + g.r.randrange(3), g.r.randrange(150))
    at_once("streams", none, streams)
    def compared(p, t):
        x = g.rnd(16)
        p.times(10 * many, "v16", x, x[:t] + bytes([x[t] ^ 1]) + x[t + 1:]).times(10 * many, "v16", x, x)
    at_once("arrays compared", none, compared)


# ------------------------------------------------------------------ user-supplied primitives
def toys(g):
    for d, b in TOYS:
        h = "toy:%d:%d" % (d, b)
        g.new("sizes of " + h).hash_sizes(h)
        hmac_keys(g, [h], oneshot=False)
        lens = sorted({0, 1, d - 1, d, d + 1, 2 * d, 5 * d + 1, 254 * d, 255 * d - 1, 255 * d})
        s = g.new(h + ": HKDF")
        for n in lens:
            s.hkdf_exp(h, g.bytes(d + g.r.randrange(4)), g.bytes(g.r.randrange(20)), n)
        for salt in (0, 1, b - 1, b, b + 1, 2 * b):
            s.hkdf_ext(h, g.bytes(salt), g.bytes(g.r.randrange(2 * b)), d)
        s = g.new(h + ": verification")
        for kl in (0, d, b, b + 1, 3 * b):
            k, m = g.bytes(kl), g.bytes(g.r.randrange(60))
            tag = ref.hmac(h, k, m, b)
            s.hmac_verify(h, k, m, tag)
            for n in range(d):
                s.hmac_verify(h, k, m, tag[:n])
            for ext in (b"\0", bytes(64 - d), bytes(65 - d), tag, bytes(256 - d)):
                if ext:
                    s.hmac_verify(h, k, m, tag + ext)
            for i in range(8 * d):
                t = bytearray(tag); t[i // 8] ^= 1 << (i % 8)
                if i % 8 in (0, 7) or d < 9:
                    s.hmac_verify(h, k, m, t)
    for alg in ("toyid", "toyxor", "toymix"):
        s = g.new(alg)
        for kl in (0, 1, 5, 16, 24, 40):
            s.blk_new(1, alg, g.bytes(kl)).blk(1, g.rnd(16))
    aead_seal(g, ["gcm-toyid", "gcm-toyxor", "gcm-toymix"])
    aead_open(g, ["gcm-toyid", "gcm-toyxor", "gcm-toymix"], X(2, 10))
    # GHASH keys at will: with toyxor the hash key is the cipher key
    for h in [bytes(16), b"\xff" * 16] + [(1 << i).to_bytes(16, "big") for i in range(0, 128, X(5, 1))] + [((1 << i) - 1).to_bytes(16, "big") for i in range(1, 128, X(11, 1))]:
        s = g.new("GHASH key " + h.hex())
        s.aead_new(1, "gcm-toyxor", h)
        for n, a in ((16, 0), (33, 17)):
            s.aead_seal(1, g.rnd(12), g.bytes(a), g.bytes(n), n)
        # ciphertext blocks with one bit set
        for i in g.r.sample(range(128), X(4, 40)):
            ct = (1 << i).to_bytes(16, "big")
            nonce = g.rnd(12)
            s.aead_open(1, nonce, b"", ct, ref.gcm_tag("toyxor", h, nonce, b"", ct), 16, 4)


# ------------------------------------------------------------------ long arguments of every kind
LONGS = [4095, 4096, 4097, 8191, 8192, 32767, 32768, 65535, 65536, 65537, 70000]


def some_longs(g, n=4):
    """lengths at which 12-, 13-, 15- and 16-bit quantities would wrap, and others"""
    return g.r.sample(LONGS, n) + [65536 + g.r.randrange(1, 300), g.r.randrange(1000, 200000)]


def long_hmac(g, hs=SHAS):
    for h in hs:
        d, b = hsizes(h)
        for n in some_longs(g) + [8192 + b, 65536 + b, 65536 + d]:
            s = g.new("%s: HMAC with key or message of %d bytes" % (h, n))
            if h in HASHES:
                s.hmac_one(h, g.rnd(n), g.bytes(g.r.randrange(100)))
                s.hmac_one(h, g.bytes(g.r.choice([0, 16, b])), g.rnd(n))
            s.hmac_new(1, h, g.rnd(n)).hmac_up(1, g.rnd(n)).hmac_up(1, g.rnd(7)).hmac_tag(1)


def long_verify(g, hs=SHAS):
    for h in hs:
        d, b = hsizes(h)
        for n in some_longs(g, 2) + [65536 + b]:
            s = g.new("%s: verification with key or message of %d bytes" % (h, n))
            for k, m in ((g.rnd(n), g.rnd(9)), (g.rnd(20), g.rnd(n))):
                tag = ref.hmac(h, k, m, b)
                s.hmac_verify(h, k, m, tag).hmac_verify(h, k, m, tag[:-1])
                for i in (0, d // 2, d - 1):
                    t = bytearray(tag); t[i] ^= 1 << g.r.randrange(8)
                    s.hmac_verify(h, k, m, t)
                s.hmac_verify(h, k, m[:-1], tag).hmac_verify(h, k[:-1], m, tag).hmac_verify(h, k, m[:-1] + bytes([m[-1] ^ 1]), tag)
        s = g.new(h + ": tags longer by multiples of powers of two")
        k, m = g.rnd(20), g.rnd(50)
        tag = ref.hmac(h, k, m, b)
        for e in (256, 512, 1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 20):
            s.hmac_verify(h, k, m, Rep(tag, d + e)).hmac_verify(h, k, m, tag + bytes(e)).hmac_verify(h, k, m, bytes(e) + tag)


def long_hkdf(g, hs=SHAS):
    for h in hs:
        d, b = hsizes(h)
        for n in some_longs(g, 2):
            s = g.new("%s: HKDF inputs of %d bytes" % (h, n))
            s.hkdf_ext(h, g.rnd(n), g.rnd(22), d).hkdf_ext(h, g.rnd(13), g.rnd(n), d).hkdf_ext(h, g.rnd(n), g.rnd(n), d)
            s.hkdf_exp(h, g.rnd(n), g.rnd(10), 2 * d + 1).hkdf_exp(h, g.rnd(d), g.rnd(n), 3 * d - 1)


def long_stream(g):
    for n in some_longs(g, 8) + [X(300000, 3000000)]:
        s = g.new("stream: %d bytes in one call" % n)
        s.st_new(1, g.rnd(32), g.rnd(12)).st_take(1, g.r.randrange(70))
        for kind in g.r.sample(["enc", "dec", "take"], X(2, 3)):
            s.st_take(1, n) if kind == "take" else s.op("st_" + kind, 1, g.rnd(n), n)
            s.st_take(1, g.r.randrange(1, 70))


def long_aead(g, algs):
    for alg in algs:
        kl = 32 if alg == "chachapoly" else AES.get(alg[4:], 16)
        for n in some_longs(g, X(2, 6)):
            a = g.r.choice([0, 5, 17])
            for p, q in ((n, a), (a, n)) + (((n, n),) if THOROUGH else ()):
                s = g.new("%s: %d bytes of message, %d of data" % (alg, p, q))
                s.aead_new(1, alg, g.rnd(kl)).aead_seal(1, g.rnd(12), g.rnd(q), g.rnd(p), p)


def long_open(g, algs):
    for alg in algs:
        kl = 32 if alg == "chachapoly" else AES.get(alg[4:], 16)
        for n in some_longs(g, X(1, 4)):
            a = g.r.choice([0, 5, 17])
            for p, q in ((n, a), (a, n)):
                key, nonce, ct, aad = g.rnd(kl), g.rnd(12), g.rnd(p), g.rnd(q)
                tag = ref.aead_tag(alg, key, nonce, aad, ct)
                s = g.new("%s: %d bytes of ciphertext, %d of data" % (alg, p, q))
                s.aead_new(1, alg, key).aead_open(1, nonce, aad, ct, tag, p, 9)
                t = bytearray(tag); t[g.r.randrange(16)] ^= 1 << g.r.randrange(8)
                s.aead_open(1, nonce, aad, ct, t, p, 9)
                for x, j in ((0, 0), (0, p - 1), (1, 0), (1, q - 1)):
                    c, v = bytearray(ct), bytearray(aad)
                    w = (c, v)[x]
                    if 0 <= j < len(w):
                        w[j] ^= 1 << g.r.randrange(8)
                        s.aead_open(1, nonce, v, c, tag, p, 9)
        key, nonce, ct, aad = g.rnd(kl), g.rnd(12), g.rnd(33), g.rnd(5)
        tag = ref.aead_tag(alg, key, nonce, aad, ct)
        s = g.new(alg + ": tags longer by multiples of powers of two")
        s.aead_new(1, alg, key)
        for e in (256, 512, 1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 20):
            s.aead_open(1, nonce, aad, ct, Rep(tag, 16 + e), 33, 8).aead_open(1, nonce, aad, ct, tag + bytes(e), 33, 8)
            s.aead_open(1, nonce, aad, ct, tag[:8] + bytes(e) + tag[8:], 33, 8)


def long_sign(g):
    for n in some_longs(g, 3):
        g.new("Ed25519: message of %d bytes" % n).ed_sign(g.rnd(32), g.rnd(n))


def long_edver(g, good):
    for n in some_longs(g, 3):
        s = g.new("Ed25519: signature of a message of %d bytes" % n)
        sk, m = g.rnd(32), g.rnd(n)
        pk, sig = ref.ed_pk(sk), ref.ed_sign(sk, m)
        s.ed_verify(pk, m, sig)
        if not good:
            s.ed_verify(pk, m[:-1], sig).ed_verify(pk, m + b"\0", sig).ed_verify(pk, m[1:], sig)
            for j in (0, n // 2, n - 1):
                w = bytearray(m); w[j] ^= 1 << g.r.randrange(8)
                s.ed_verify(pk, w, sig)
            for e in (256, 1 << 12, 1 << 16):
                s.ed_verify(pk, m, Rep(sig, 64 + e)).ed_verify(pk, m, sig + bytes(e))


# ---------------------------------------------------------------- other machines
def weight(ev, alg=""):
    """seconds a call takes on an interpreted machine, roughly; None: not run there"""
    op = ev["op"]

    def n(*names):
        t = 0
        for a in names:
            v = ev.get(a)
            t += 0 if v is None else v if isinstance(v, int) else len(v[0]) // 2 if len(v) < 2 else v[1]
        return t
    size = n("d", "aad", "key", "salt", "ikm", "info", "prk", "tag", "n")
    if op in ("hash_new", "hash_up", "hash_fin", "hash_one", "hash_sizes", "hmac_new", "hmac_up", "hmac_tag", "hmac_one", "hmac_verify", "hkdf_ext"):
        return 0.05 + size / 1800
    if op == "hkdf_exp":
        return 0.1 + (n("n") / max(1, ev["h"]["d"]) + 1) * 0.12
    if op == "blk_new":
        return 0.1
    if op == "blk":
        return 0.35
    if op in ("st_new", "st_take", "st_nth", "st_enc", "st_dec"):
        return 0.02 + size / 800
    if op == "st_skip":
        return 0.02 + int.from_bytes(bytes.fromhex(ev["by"][0]), "little") / 800
    if op in ("aead_new", "aead_seal", "aead_open"):
        return 0.1 + size / 700 if alg == "chachapoly" else 0.3 + size / 700 if "toy" in alg else 1 + (size + 16) / 55
    if op in ("x_pk", "x_dh", "ed_sign", "ed_verify"):
        return 3.4
    if op == "ed_pk":
        return 1.5
    if op == "v16":
        return 0.01
    return None


def portable(g):
    """Sessions of the other generators, cut short where they take too long."""
    per = X(14, 70)        # seconds per generator
    AEADS = ["gcm-aes128", "gcm-aes192", "gcm-aes256"]
    fs = [sha_lengths, sha_mid, chunk_matrix, hmac_keys, hmac_verify, hkdf, aes, lambda h: stream_history(h, 40), stream_positions,
          lambda h: aead_seal(h, AEADS), lambda h: aead_seal(h, ["chachapoly"]), lambda h: aead_open(h, AEADS, 2),
          lambda h: aead_open(h, ["chachapoly"], 2), lambda h: poly_crafted(h, 4), poly_extreme_keys, lambda h: ghash_crafted(h, 3),
          x25519, dh_laws, ed_sign, ed_edges, ed_valid, ed_invalid, ed_compare, ed_nonpoints, lambda h: ed_crafted(h, 4), v16, panics, toys,
          lambda h: interleave(h, 20), lambda h: purity(h, 12)]
    for f in fs:
        h = G(g.r.randrange(1 << 30))
        f(h)
        h.r.shuffle(h.s)
        left = per
        for s in h.s:
            if any(l.split(" ")[0] in ("par", "thread", "endpar", "times") for l in s.lines):
                continue
            k = w = 0
            alg = ""
            for ev in s.events:
                alg = ev.get("alg", alg)
                e = weight(ev, alg)
                if e is None or w + e > min(left, 6):
                    break
                w += e
                k += 1
            if k == 0 or (k < len(s.events) and w < 0.5 and k < 3):
                continue
            t = g.new(s.why)
            t.lines, t.events, t.weight = s.lines[:k], s.events[:k], w
            left -= w
            if left < 0.3:
                break
