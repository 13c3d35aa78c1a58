"""Models of spec/ that TLC explores exhaustively, and the behaviours they generate for replay.

Each entry of MODELS takes the property's id and returns (states, transitions, sessions, findings)."""
import json, os, random, re, shutil
from . import core, ref
from .core import BUILD, HASHES, SHAS, SEED, Session, ToolError
from .gens import X

MODELS = {}


def model(f):
    MODELS[f.__name__] = f
    return f


def exists(name):
    return name in MODELS


def run(name, prop):
    return MODELS[name](prop)


def explored(module, tag, env=None, files=None, **kw):
    """Runs TLC on a model; returns (states, transitions, printed tuples as lists of JSON values)."""
    d = os.path.join(BUILD, "run", "%d-%s" % (os.getpid(), tag))
    os.makedirs(d, exist_ok=True)
    env = dict(env or {})
    try:
        for var, rows in (files or {}).items():
            env[var] = os.path.join(d, var + ".ndjson")
            with open(env[var], "w") as f:
                for r in rows:
                    f.write(json.dumps(r) + "\n")
        rc, out, gen, dist = core.tlc(module, env={k: str(v) for k, v in env.items()}, **kw)
        if rc:
            # the models do not look at the library: a violated invariant is an error in spec/
            raise ToolError("model %s: TLC reports (%d)\n%s" % (module, rc, out[:1500] + "\n...\n" + out[-2500:]))
        return dist, gen, out.replace("\n", " ")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def printed(out, label):
    """the JSON argument of every <<label, "json">> printed"""
    return [json.loads(core.unescape(m)) for m in re.findall(r'<<\s*"%s",\s*"(.*?)"\s*>>' % label, out)]


# ---------------------------------------------------------------- histories of calls
def rb(r, n):
    return r.randbytes(n)


def menu_hash(r, h1, h2):
    """two hashers and a MAC; the pieces are such that any three of them straddle block ends"""
    d, b = HASHES[h1]
    m = Session("menu")
    m.hash_new(1, h1).hash_up(1, rb(r, b - 1)).hash_up(1, rb(r, 1)).hash_up(1, rb(r, b + 9)).hash_up(1, b"").hash_fin(1, d)
    m.hash_new(2, h2).hash_up(2, rb(r, HASHES[h2][1] - 9)).hash_fin(2, HASHES[h2][0])
    m.hmac_new(3, h1, rb(r, b + 1)).hmac_up(3, rb(r, b)).hmac_tag(3)
    return m


def menu_macs(r, h1, h2):
    b = HASHES[h1][1]
    m = Session("menu")
    k = rb(r, 20)
    m.hmac_new(1, h1, k).hmac_up(1, rb(r, b - 1)).hmac_up(1, rb(r, 2)).hmac_tag(1)
    m.hmac_new(2, h2, k).hmac_up(2, rb(r, b)).hmac_tag(2)
    m.hash_new(3, h1).hash_up(3, rb(r, b - 8)).hash_fin(3, HASHES[h1][0])
    m.hmac_verify(h1, k, b"x", ref.hmac(h1, k, b"x", b))
    return m


def menu_stream(r):
    k, n = rb(r, 32), rb(r, 12)
    m = Session("menu")
    m.st_new(1, k, n).st_take(1, 1).st_take(1, 63).st_enc(1, rb(r, 64), 64).st_dec(1, rb(r, 65), 65).st_nth(1, 62)
    m.st_enc(1, b"", 0).st_enc(1, rb(r, 3), 2)
    m.st_new(2, k, n).st_dec(2, rb(r, 64), 64).st_take(2, 63)
    return m


def menu_blocks(r, a1, a2):
    """two ciphers, the same blocks, one key sharing its first half with the other"""
    k = rb(r, 32)
    m = Session("menu")
    x, y = rb(r, 16), rb(r, 16)
    m.blk_new(1, a1, k[:core.AES[a1]]).blk(1, x).blk(1, y).blk(1, bytes(16))
    m.blk_new(2, a2, k[:8] + rb(r, core.AES[a2] - 8)).blk(2, x).blk(2, y)
    m.blk_new(1, a2, k[:core.AES[a2]]).blk_new(2, a1, k[:core.AES[a1] - 1])
    return m


def menu_ciphers(r, alg):
    """a cipher used for sealing, opening and failed calls next to a second one with the same key and a stream"""
    kl = 32 if alg == "chachapoly" else core.AES[alg[4:]]
    k, n, n2 = rb(r, kl), rb(r, 12), rb(r, 12)
    m = Session("menu")
    pt = rb(r, 33)
    ct = ref.xor(pt, ref.aead_ks(alg, k, n, 33))
    tag = ref.aead_tag(alg, k, n, b"aad", ct)
    bad = bytes([tag[0] ^ 1]) + tag[1:]
    m.aead_new(1, alg, k).aead_seal(1, n, b"aad", pt, 33).aead_open(1, n, b"aad", ct, tag, 33, 7).aead_open(1, n, b"aad", ct, bad, 33, 7)
    m.aead_seal(1, n2, b"", pt[:16], 16).aead_seal(1, n, b"aad", pt, 32).aead_open(1, n2, b"aad", ct, tag, 33, 0)
    m.aead_new(2, alg, k).aead_open(2, n, b"aad", ct, tag, 33, 255)
    if alg == "chachapoly":
        m.st_new(3, k, n).st_take(3, 65)
    else:
        m.blk_new(3, alg[4:], k).blk(3, rb(r, 16))
    m.x_dh(rb(r, 32), rb(r, 31))
    return m


def explore(prop, menus, depth):
    st = tr = 0
    sessions = []
    for k, (why, m) in enumerate(menus):
        a, b, out = explored("Explore", "%s-menu%d" % (prop, k), {"DEPTH": depth}, {"MENU": m.events})
        st, tr = st + a, tr + b
        hist = printed(out, "HISTORY")
        if not hist:
            raise ToolError("Explore printed no history")
        for h in hist:
            s = Session("history of calls generated by spec/Explore.tla: " + why)
            s.lines = [m.lines[i - 1] for i in h]
            s.events = [m.events[i - 1] for i in h]
            sessions.append(s)
    return st, tr, sessions, []


@model
def Interleaving(prop):
    r = random.Random(SEED * 77 + int(prop[1:]))
    if prop == "C02":
        menus = [("hashers", menu_hash(r, a, b)) for a, b in X([("sha256", "sha224"), ("sha512", "sha384")], [(x, y) for x in SHAS for y in SHAS if x != y])]
        menus += [("MACs", menu_macs(r, a, b)) for a, b in X([("sha256", "sha512")], [("sha256", "sha512"), ("sha512", "sha224"), ("sha224", "sha256"), ("sha384", "sha384")])]
        return explore(prop, menus, X(5, 6))
    if prop == "C06":
        return explore(prop, [("block ciphers", menu_blocks(r, a, b)) for a, b in
                              X([("aes128", "aes128"), ("aes256", "aes192")], [(a, b) for a in core.AES for b in core.AES])], X(4, 6))
    if prop == "C08":
        return explore(prop, [("streams", menu_stream(r))], X(4, 6))
    menus = [("ciphers", menu_ciphers(r, a)) for a in X(["chachapoly", "gcm-aes128"], ["chachapoly", "gcm-aes128", "gcm-aes192", "gcm-aes256"])]
    return explore(prop, menus, X(4, 5))


# ---------------------------------------------------------------- block buffers
def scale(p, blen, size, residues):
    """position p of a model with blocks of blen bytes, in blocks of size bytes; keeps the order"""
    return p // blen * size + residues[p % blen]


@model
def Buffering(prop):
    """Every splitting the model generates, scaled so that the residues that matter to padding and
    buffering are hit, on the real hash functions."""
    r = random.Random(SEED * 78 + int(prop[1:]))
    blen, lf, pieces, total = 8, 2, X(3, 4), X(17, 21)
    st, tr, out = explored("Buffering", prop + "-buf", {"BLEN": blen, "LFLEN": lf, "PIECES": pieces, "TOTAL": total})
    cuts = printed(out, "CUTS")
    # other shapes of block and length field are checked without replay
    for b2, l2 in X([(4, 1), (6, 3)], [(4, 1), (6, 3), (5, 5), (9, 1)]):
        a, b, _ = explored("Buffering", prop + "-buf", {"BLEN": b2, "LFLEN": l2, "PIECES": 3, "TOTAL": 2 * b2 + 2})
        st, tr = st + a, tr + b
    sessions = []
    for h in SHAS:
        d, b = HASHES[h]
        res = [0, 1, 17, 32, b - b // 8 - 2, b - b // 8 - 1, b - b // 8, b - 1]
        some = cuts if core.THOROUGH or prop == "C02" else r.sample(cuts, len(cuts) // 3)
        for i in range(0, len(some), 6):
            s = Session("splittings generated by spec/Buffering.tla: " + h)
            for k, c in enumerate(some[i:i + 6]):
                at = [0] + [scale(p, blen, b, res) for p in c]
                msg = r.randbytes(at[-1])
                if prop == "C02" and k % 3 == 2:
                    s.hmac_new(k, h, r.randbytes(r.choice([0, 20, b, b + 1])))
                    for x, y in zip(at, at[1:]):
                        s.hmac_up(k, msg[x:y])
                    s.hmac_tag(k)
                else:
                    s.hash_new(k, h)
                    for x, y in zip(at, at[1:]):
                        s.hash_up(k, msg[x:y])
                    s.hash_fin(k, d)
            sessions.append(s)
    return st, tr, sessions, []



@model
def StreamBuffer(prop):
    r = random.Random(SEED * 79 + int(prop[1:]))
    blen, ops, total = 3, 3, X(8, 11)
    st, tr, out = explored("StreamBuffer", prop + "-sb", {"BLEN": blen, "PIECES": ops, "TOTAL": total})
    hist = printed(out, "OPS")
    for b2 in (1, 4):
        a, b, _ = explored("StreamBuffer", prop + "-sb", {"BLEN": b2, "PIECES": 3, "TOTAL": 2 * b2 + 1})
        st, tr = st + a, tr + b
    sessions = []
    for i in range(0, len(hist), 8):
        s = Session("histories of stream operations generated by spec/StreamBuffer.tla")
        for k, ops in enumerate(hist[i:i + 8]):
            s.st_new(k, r.randbytes(32), r.randbytes(12))
            at = 0
            res = [0, r.choice([1, 31, 32, 33]), 63]
            for kind, p in ops:
                p = scale(p, blen, 64, res)
                n = p - at
                if kind == "take":
                    s.st_take(k, n)
                elif kind == "nth":
                    s.st_nth(k, n - 1)
                else:
                    s.op("st_" + kind, k, r.randbytes(n), n)
                at = p
            # what follows shows where the stream is
            s.st_take(k, 2)
        sessions.append(s)
    return st, tr, sessions, []


# ---------------------------------------------------------------- tags
def tags_from(prop, k, base, depth):
    st, tr, out = explored("Comparison", "%s-cmp%d" % (prop, k), {"DEPTH": depth}, {"BASE": [list(base)]}, workers=1)
    tags = {bytes(t): v for t, v in printed(out, "TAG")}
    assert tags.pop(bytes(base)) is True and not any(tags.values())
    return st, tr, sorted(tags)


@model
def Comparison(prop):
    r = random.Random(SEED * 80 + int(prop[1:]))
    st = tr = 0
    sessions = []
    if prop == "C18":
        bases = [bytes(range(1, 17)), bytes(16), b"\xff" * 16, bytes([0x80] * 8 + [0] * 8), r.randbytes(16)]
        for k, x in enumerate(bases):
            a, b, tags = tags_from(prop, k, x, X(2, 3) if k else 3)
            st, tr = st + a, tr + b
            for i in range(0, len(tags), 40):
                s = Session("tags generated by spec/Comparison.tla")
                s.v16(x, x)
                for y in tags[i:i + 40]:
                    s.v16(x, y)
                sessions.append(s)
        return st, tr, sessions, []
    for k, h in enumerate(SHAS + ["toy:8:8", "toy:31:33"]):
        d, b = core.hsizes(h)
        key, msg = r.randbytes(20), r.randbytes(r.randrange(40))
        base = ref.hmac(h, key, msg, b)
        p, q, tags = tags_from(prop, k, base, X(2, 3))
        st, tr = st + p, tr + q
        tags = tags if len(tags) < 4000 else r.sample(tags, 4000)
        for i in range(0, len(tags), 40):
            s = Session("tags generated by spec/Comparison.tla: HMAC " + h)
            s.hmac_verify(h, key, msg, base)
            for y in tags[i:i + 40]:
                s.hmac_verify(h, key, msg, y)
            sessions.append(s)
    return st, tr, sessions, []


@model
def MacKeys(prop):
    r = random.Random(SEED * 81 + int(prop[1:]))
    shapes = X([(1, 1), (1, 7), (2, 3), (4, 8), (8, 8)], [(1, 1), (1, 7), (2, 3), (4, 8), (8, 8), (16, 16)])
    if prop == "C03":
        shapes = shapes[2:4]
    st, tr, out = explored("MacKeys", prop + "-mac", files={"SHAPES": [list(x) for x in shapes]})
    sessions = []
    inst = sorted(tuple(x) for x in printed(out, "MAC"))
    if prop == "C03":
        # the same classes of lengths on the real hash functions
        for h in SHAS:
            d, b = HASHES[h]
            todo = []
            for d2, b2, kl, ml in inst:
                # lengths from the block size: below, at, above and the same multiple
                f = lambda n: n // b2 * b + (0 if n % b2 == 0 else b - (b2 - n % b2) if n % b2 > b2 // 2 else n % b2)
                todo.append((f(kl), f(ml)))
            todo = sorted(set(todo))
            for i in range(0, len(todo), 8):
                s = Session("key and message lengths generated by spec/MacKeys.tla: " + h)
                for kl, ml in todo[i:i + 8]:
                    k, m = r.randbytes(kl), r.randbytes(ml)
                    s.hmac_one(h, k, m).hmac_new(1, h, k).hmac_up(1, m).hmac_tag(1)
                sessions.append(s)
        return st, tr, sessions, []
    for i in range(0, len(inst), 8):
        s = Session("key and message lengths generated by spec/MacKeys.tla")
        for d, b, kl, ml in inst[i:i + 8]:
            h = "toy:%d:%d" % (d, b)
            k, m = r.randbytes(kl), r.randbytes(ml)
            c = r.randrange(ml + 1)
            s.hmac_new(1, h, k).hmac_up(1, m[:c]).hmac_up(1, m[c:]).hmac_tag(1)
            s.hmac_verify(h, k, m, ref.hmac(h, k, m, b)).hkdf_ext(h, k, m, d)
            if kl >= d:
                s.hkdf_exp(h, k, m, r.randrange(4 * d))
        sessions.append(s)
    return st, tr, sessions, []


@model
def HkdfCounter(prop):
    """Output lengths: all of them for hash functions with short digests, the ends for the others."""
    r = random.Random(SEED * 82 + int(prop[1:]))
    st = tr = 0
    sessions = []
    for d, mx in ((1, 1), (3, 2), (2, 3), (4, 5)):
        a, b, _ = explored("HkdfCounter", prop + "-hk", {"DIGEST": d, "MAX": mx})
        st, tr = st + a, tr + b
    for d, b in [(1, 1), (2, 3)] + X([], [(4, 8)]):
        p, q, out = explored("HkdfCounter", prop + "-hk", {"DIGEST": d, "MAX": 255})
        st, tr = st + p, tr + q
        lens = sorted(printed(out, "LENGTH"))
        assert len(lens) == 256 * d + 1 and sum(ok for _, ok in lens) == 255 * d + 1
        h = "toy:%d:%d" % (d, b)
        for i in range(0, len(lens), 16):
            s = Session("output lengths generated by spec/HkdfCounter.tla: " + h)
            for n, ok in lens[i:i + 16]:
                s.hkdf_exp(h, r.randbytes(d + n % 3), r.randbytes(n % 5), n)
            sessions.append(s)
    return st, tr, sessions, []


# ---------------------------------------------------------------- authenticated ciphers
@model
def AeadAdversary(prop):
    """What the adversary presents, made concrete; the model's verdict must be the specification's."""
    r = random.Random(SEED * 83 + int(prop[1:]))
    st, tr, out = explored("AeadAdversary", prop + "-adv", {"ALTERED": X(1, 2)})
    opens = printed(out, "OPEN")
    yes = [o for o, v in opens if v]
    no = [o for o, v in opens if not v]
    assert len(yes) == 36
    sessions = []
    for alg in ["chachapoly"] if prop == "C10" else ["gcm-aes128", "gcm-aes192", "gcm-aes256"]:
        kl = 32 if alg == "chachapoly" else core.AES[alg[4:]]
        keys = [None] + [r.randbytes(kl) for _ in range(2)]
        nonces = [None, r.randbytes(12), None]
        nonces[2] = nonces[1][:11] + bytes([nonces[1][11] ^ 1])
        aads = [b"", r.randbytes(5), r.randbytes(16)]
        msgs = [b"", r.randbytes(16), r.randbytes(r.choice([33, 63, 65, 100]))]
        cache = {}

        def ct(t):
            if t[0] == "empty":
                return b""
            return ref.xor(msgs[t[3]], ref.aead_ks(alg, keys[t[1]], nonces[t[2]], len(msgs[t[3]])))

        def tag(t):
            k = json.dumps(t)
            if k not in cache:
                cache[k] = ref.aead_tag(alg, keys[t[1]], nonces[t[2]], aads[t[3][1]], ct(t[4][1]))
            return cache[k]

        def alter(x, how):
            if how == "same":
                return x
            if how in ("flip", "flipfirst", "fliplast"):
                i = {"flip": r.randrange(len(x)), "flipfirst": 0, "fliplast": len(x) - 1}[how]
                return x[:i] + bytes([x[i] ^ (1 << r.randrange(8))]) + x[i + 1:]
            if how == "drop":
                return x[:-1]
            if how == "add":
                return x + bytes([r.choice([0, x[-1] if x else 0, 255])])
            if how == "zero":
                return bytes(len(x)) if any(x) else x + b"\0"
            return b"" if how == "none" else x + x

        some = yes * 2 + (no if core.THOROUGH else r.sample(no, X(4000 if prop == "C10" else 2000, 0)))
        r.shuffle(some)
        for i in range(0, len(some), 30):
            s = Session("forgeries generated by spec/AeadAdversary.tla: " + alg)
            s.aead_new(1, alg, keys[1]).aead_new(2, alg, keys[2])
            for o in some[i:i + 30]:
                c = alter(ct(o["ct"]), o["ch"])
                s.aead_open(o["k"], nonces[o["n"]], alter(aads[o["a"]], o["ah"]), c, alter(tag(o["tag"]), o["th"]), len(c), r.randrange(256))
            sessions.append(s)
    return st, tr, sessions, []


# ---------------------------------------------------------------- curves over small primes
def toy_curve(p, d, ell):
    """parameters of a small curve: a point of order ell on -x^2 + y^2 = 1 + d x^2 y^2"""
    inv = lambda x: pow(x, -1, p)

    def add(P, Q):
        t = d * P[0] * Q[0] * P[1] * Q[1]
        return ((P[0] * Q[1] + Q[0] * P[1]) * inv(1 + t) % p, (P[1] * Q[1] + P[0] * Q[0]) * inv(1 - t) % p)
    for y in range(p):
        for x in range(p):
            if (-x * x + y * y - 1 - d * x * x * y * y) % p == 0 and (x, y) != (0, 1):
                P = (0, 1)
                for _ in range(ell):
                    P = add(P, (x, y))
                if P == (0, 1):
                    return {"PRIME": p, "EDD": d, "ELL": ell, "BX": x, "BY": y}


# group order 8 ell; the last one has the d of edwards25519, so that both forms are the same curve
TOYS_ED = [(37, 2, 5), (53, 3, 7), (101, 12, 11), (293, 259, 37)]
# for the Montgomery form only the prime matters
TOYS_MON = [(13, 11, 1), (37, 2, 5), (173, 80, 3)]


def le32(n):
    return (n % (1 << 256)).to_bytes(32, "little")


def toy_runs(prop, runs):
    st = tr = 0
    for what, (p, d, ell) in runs:
        env = toy_curve(p, d, ell) or {"PRIME": p, "EDD": d, "ELL": ell, "BX": 0, "BY": 1}
        a, b, _ = explored("ToyCurves", "%s-%s%d" % (prop, what, p), dict(env, WHAT=what), accel="kernel")
        st, tr = st + a, tr + b
    return st, tr


@model
def ToyCurves(prop):
    r = random.Random(SEED * 84 + int(prop[1:]))
    M, E = TOYS_MON, TOYS_ED
    sessions = []
    if prop == "C13":
        st, tr = toy_runs(prop, [("ladder", M[0]), ("ladder", M[1]), ("map", E[3])] + X([], [("ladder", M[2])]))
        # the same small numbers, and their aliases, on the real curve
        P = ref.P
        us = list(range(0, X(12, 40))) + [P + i for i in range(19)] + [P - i for i in range(1, X(5, 20))]
        us += [u + (1 << 255) for u in us]
        ks = [k << e for k in range(0, X(4, 12)) for e in (0, 3, 251)]
        for i, u in enumerate(us):
            s = Session("X25519 of small numbers and their aliases (spec/ToyCurves.tla)")
            for k in ks if core.THOROUGH else r.sample(ks, 4):
                s.x_dh(le32(k), le32(u))
            sessions.append(s)
        return st, tr, sessions, []
    st, tr = toy_runs(prop, [("agree", M[0])] + X([], [("agree", M[1])]))
    from .gens import ladder, cl
    for i in range(X(60, 600)):
        s = Session("two secrets on any starting value, in both orders (spec/ToyCurves.tla)")
        a, b = r.choice([le32(r.randrange(13) * 8), r.randbytes(32)]), r.choice([le32(r.randrange(13) * 8), r.randbytes(32)])
        u = r.choice([i % 20, ref.P - 1 - i % 20, r.randrange(ref.P)])
        s.x_dh(a, le32(u)).x_dh(b, le32(u)).x_dh(a, le32(ladder(cl(b), u))).x_dh(b, le32(ladder(cl(a), u)))
        sessions.append(s)
    return st, tr, sessions, []


@model
def Windows(prop):
    """Scalars whose signed windows do what the model's did, at every place; runs of ones of every length."""
    r = random.Random(SEED * 86 + int(prop[1:]))
    st = tr = 0
    for w, k, most in ((7, 3, 3), (9, 4, 7)) + X((), ((14, 5, 15), (13, 6, 31))):
        a, b, _ = explored("Windows", prop + "-win", {"WIDTH": w, "REACH": k, "MOST": most})
        st, tr = st + a, tr + b
    a, b, out = explored("Windows", prop + "-win", {"WIDTH": 11, "REACH": 5, "MOST": 15})
    situations = {}
    for n, seen in printed(out, "WINDOWS"):
        for at, digit, carry in seen:
            situations.setdefault((digit, carry), []).append((n, at - 1, len(seen)))
    assert {d for d, _ in situations} == set(range(-15, 16, 2))
    scalars = []
    for (digit, carry), ns in sorted(situations.items()):
        places = r.sample(range(253 - 12), X(20, 200)) + [0, 1, 241]
        for p in places:
            n, at, _ = r.choice(ns)
            v, up = n << p, 253
            if digit < 0:
                # the run of ones above the window made longer
                cut = p + at + 5
                extra = r.choice([0, 1, 2, 8, 31, r.randrange(252)])
                extra = max(0, min(extra, 250 - cut - (n >> (at + 5)).bit_length()))
                low, high = v & ((1 << cut) - 1), v >> cut
                v = low | (((1 << extra) - 1) << cut) | (high << (cut + extra))
            # what is below is random, and so is what is above
            if p > 5:
                v |= r.getrandbits(p - 5)
            if v.bit_length() < 240 and r.random() < .5:
                v |= r.getrandbits(250 - v.bit_length() - 3) << (v.bit_length() + 3)
            if v < ref.L:
                scalars.append(v)
    # carries that go all the way up
    for p in range(0, 248, X(5, 1)):
        scalars += [((1 << 252) - (1 << p)) | r.getrandbits(p) if p else (1 << 252) - 1, (1 << 252) - (1 << p)]
    sessions = []
    pk = ref.penc(ref.ID)
    for i in range(0, len(scalars), 32):
        s = Session("scalars generated by spec/Windows.tla")
        for v in scalars[i:i + 32]:
            s.ed_verify(pk, r.randbytes(3), ref.penc(ref.pmul(v, ref.B)) + le32(v))
        sessions.append(s)
    return st + a, tr + b, sessions, []


@model
def ToySignatures(prop):
    """Verdicts on small curves; every relation of the torsion parts on the real one."""
    r = random.Random(SEED * 85 + int(prop[1:]))
    E = TOYS_ED
    sessions = []
    if prop == "C15":
        st, tr = toy_runs(prop, [(w, e) for w in ("add", "mul", "enc") for e in E[:X(2, 3)]])
        return st, tr, [], []
    st = tr = 0
    for p, d, ell in E[:1] if not core.THOROUGH else E[:3]:
        a, b, _ = explored("ToySignatures", "%s-sig%d" % (prop, p), toy_curve(p, d, ell), accel="kernel")
        st, tr = st + a, tr + b
    T = ref.torsion()
    for t in range(8):
        for u in range(8):
            s = Session("torsion parts of key and R (spec/ToySignatures.tla)")
            for a, rr in ((0, 0), (r.randrange(ref.L), r.randrange(ref.L))):
                A = ref.penc(ref.padd(ref.pmul(a, ref.B), T[t]))
                R = ref.penc(ref.padd(ref.pmul(rr, ref.B), T[u]))
                seen = set()
                while len(seen) < 8:
                    m = r.randbytes(6)
                    k = ref.hml(R, A, m)
                    if k % 8 in seen:
                        continue
                    seen.add(k % 8)
                    S = (rr + k * a) % ref.L
                    good = (u + k * t) % 8 == 0
                    if prop == "C16" and not good:
                        continue
                    s.ed_verify(A, m, R + le32(S))
                    if prop == "C17":
                        s.ed_verify(A, m, R + le32((S + 1) % ref.L)).ed_verify(A, m, R + le32(S + ref.L))
            if s.lines:
                sessions.append(s)
    return st, tr, sessions, []


# ---------------------------------------------------------------- counters and limits
@model
def Counters(prop):
    """Lengths of the model, with real block sizes and counters (far below the limit)."""
    r = random.Random(SEED * 86 + int(prop[1:]))
    st = tr = 0
    lens = set()
    for w, bs in X([(3, 1), (3, 4), (4, 3)], [(3, 1), (3, 4), (4, 3), (5, 4), (6, 2)]):
        a, b, out = explored("Counters", "%s-cn%d%d" % (prop, w, bs), {"WIDTH": w, "BS": bs})
        st, tr = st + a, tr + b
        lens |= {(m, n // bs, n % bs, bs) for m, n, s in printed(out, "COUNT") if s == "done"}
    algs = {"C09": ["chachapoly"], "C11": ["gcm-aes128", "gcm-aes192", "gcm-aes256"]}.get(prop, ["chachapoly", "gcm-aes256"])
    sessions = []
    for alg in algs:
        size = 64 if alg == "chachapoly" else 16
        ns = sorted({q * size + (0 if x == 0 else size - 1 if x == bs - 1 else size * x // bs)
                     for m, q, x, bs in lens if (m == "gcm") == alg.startswith("gcm")})
        key = r.randbytes(32 if alg == "chachapoly" else core.AES[alg[4:]])
        for i in range(0, len(ns), 8):
            s = Session("message lengths generated by spec/Counters.tla: " + alg)
            s.aead_new(1, alg, key)
            for n in ns[i:i + 8]:
                nonce = r.randbytes(12)
                s.aead_seal(1, nonce, r.randbytes(n % 19), r.randbytes(n), n)
            sessions.append(s)
    return st, tr, sessions, []


@model
def Domains(prop):
    r = random.Random(SEED * 87 + int(prop[1:]))
    st, tr, out = explored("Domains", prop + "-dom")
    cases = sorted(printed(out, "CALL"), key=json.dumps)
    sessions = []
    R = r.randbytes
    for i in range(0, len(cases), 12):
        s = Session("argument lengths generated by spec/Domains.tla")
        for c, answer in cases[i:i + 12]:
            op, alg, n = c[0], c[1], c[2:]
            if isinstance(alg, dict):
                alg = alg["alg"] if alg["alg"] != "toy" else "toy:%d:%d" % (alg["d"], alg["b"])
            if op == "hash_fin":
                s.hash_new(1, alg).hash_up(1, R(9)).hash_fin(1, n[0])
            elif op == "hkdf_ext":
                s.hkdf_ext(alg, R(4), R(7), n[0])
            elif op == "hkdf_exp":
                s.hkdf_exp(alg, R(n[0]), R(3), n[1])
            elif op == "hmac_verify":
                s.hmac_verify(alg, R(n[0]), R(5), R(n[1]))
            elif op in ("blk_new", "aead_new"):
                s.op(op, 2, alg, R(n[0]))
            elif op == "st_new":
                s.st_new(2, R(n[0]), R(n[1]))
            elif op in ("st_enc", "st_dec"):
                s.st_new(3, R(32), R(12)).st_take(3, 5).op(op, 3, R(n[0]), n[1]).st_take(3, 2)
            elif op in ("aead_seal", "aead_open"):
                kl = 32 if alg == "chachapoly" else core.AES[alg[4:]]
                key, nonce, aad, d = R(kl), R(n[1]), R(3), R(n[0])
                s.aead_new(4, alg, key)
                if op == "aead_seal":
                    s.aead_seal(4, nonce, aad, d, n[2])
                else:
                    # the right tag where there is one: the lengths must be looked at all the same
                    t = ref.aead_tag(alg, key, nonce, aad, d) if n[1] == 12 and n[3] == 16 and r.random() < .7 else R(n[3])
                    s.aead_open(4, nonce, aad, d, t, n[2], 3)
            elif op in ("x_pk", "ed_pk"):
                s.op(op, R(n[0]))
            elif op == "x_dh":
                s.x_dh(R(n[0]), R(n[1]))
            elif op == "ed_sign":
                s.ed_sign(R(n[0]), R(n[1]))
            elif op == "ed_verify":
                s.ed_verify(R(n[0]), R(4), R(n[1]))
            elif op == "v16":
                s.v16(R(16), R(n[0]))
            else:
                raise ToolError("case " + op)
        sessions.append(s)
    return st, tr, sessions, []
