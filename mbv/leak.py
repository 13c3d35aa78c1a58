"""Property C23: what an observer sees of a call is a function of what it is entitled to.

Calls run on the real library under valgrind's lackey, which reports every instruction and every memory
access; spec/Leakage.tla decides whether calls with equal views showed the same."""
import json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, gens, models, ref
from .core import AES, BUILD, HASHES, SEED, SHAS, Finding, Outcome, Session, ToolError, reply
from .gens import G, X

EXPLANATION = ("Each session's calls ran on the library as built from /repo under valgrind's lackey. TLC read every call with its "
               "leak (digest of all executed instructions and accessed addresses, or of the blocks of instructions run) and "
               "checked against spec/Leakage.tla that calls with equal views have equal leaks.")
TOOL = ["valgrind", "--tool=lackey"]
# build, options of the tool, what is hashed.  leakrel: all instructions and memory accesses of the
# optimised build; leakdev: the blocks of instructions that run in the unoptimised one, where every branch
# of the source is a branch; leakall: all instructions and memory accesses of that one
KIND = {"leakrel": ("leakrel", "--trace-mem=yes", "mem"),
        "leakdev": ("leakdev", "--trace-superblocks=yes --vex-guest-chase=no", "blocks"),
        "leakall": ("leakdev", "--trace-mem=yes", "mem")}


def specials(r, n):
    return [bytes(n), b"\xff" * n, bytes([0x80] + [0] * (n - 1)) if n else b"", bytes([0] * (n - 1) + [1]) if n else b"", bytes(range(n)) if n <= 256 else r.randbytes(n),
            bytes(n // 2) + r.randbytes(n - n // 2), r.randbytes(n // 2) + bytes(n - n // 2), r.randbytes(n // 2) * 2 + bytes(n % 2)]


class Groups:
    """A group holds sessions of one shape: the same operations on arguments of the same lengths."""

    def __init__(self):
        self.r = random.Random(SEED * 91)
        self.groups = []

    def group(self, why, f, count):
        """f(session, b, i) with b(n) giving n secret bytes, for i < count"""
        out = []
        for i in range(count):
            s = Session(why)

            def b(n, i=i):
                if i == 0:
                    return self.r.randbytes(n)
                sp = specials(self.r, n)
                return sp[(i - 1) % len(sp)] if i <= 3 or (i > 3 and self.r.random() < .15) else self.r.randbytes(n)
            f(s, b, i)
            out.append(s)
        self.groups.append(out)


def tag_variants(r, t, patterns):
    """wrong tags: differing in the bytes the model's pairs say, everywhere, in one bit, all zero"""
    n = len(t)
    out = []
    for p in patterns:
        x = bytearray(t)
        for k, d in enumerate(p):
            if d:
                # the k-th of len(p) equal parts, both ends of it
                lo, hi = k * n // len(p), (k + 1) * n // len(p) - 1
                for at in {lo, hi}:
                    x[at] ^= 1 << r.randrange(8)
        out.append(bytes(x))
    out += [bytes(n), bytes([b ^ 255 for b in t]), t[:-1] + bytes([t[-1] ^ 1]), bytes([t[0] ^ 128]) + t[1:], r.randbytes(n), ref.xor(t, b"\x40" * n)]
    return out


def small(g, patterns, per):
    r = g.r
    for h in SHAS:
        d, b = HASHES[h]
        for n in X([0, 17, b - 1, 2 * b + 5], [0, 1, 17, b - 9, b - 8, b - 1, b, b + 1, 2 * b + 5, 4 * b]):
            g.group("hash " + h, lambda s, B, i: s.hash_one(h, B(n)), per)
        for pieces in X([(5, b - 5, 7)], [(5, b - 5, 7), (b + 3, b, 1), (0, 1, 2 * b)]):
            def inc(s, B, i):
                s.hash_new(1, h)
                for p in pieces:
                    s.hash_up(1, B(p))
                s.hash_fin(1, d)
            g.group("incremental hash " + h, inc, per)

            def incm(s, B, i):
                s.hmac_new(1, h, B(20))
                for p in pieces:
                    s.hmac_up(1, B(p))
                s.hmac_tag(1)
            g.group("incremental MAC " + h, incm, per)
        for k, m in X([(20, 9), (b, b + 1), (b + 7, 0)], [(0, 0), (20, 9), (d, d), (b, b + 1), (b + 7, 0), (3 * b, 3 * b)]):
            g.group("MAC " + h, lambda s, B, i: s.hmac_one(h, B(k), B(m)), per)

            def ver(s, B, i):
                key, msg = B(k), B(m)
                t = ref.hmac(h, key, msg, b)
                s.hmac_verify(h, key, msg, t)
                vs = tag_variants(r, t, patterns)
                for x in vs if i < 2 else r.sample(vs, 3):
                    if x != t:
                        s.hmac_verify(h, key, msg, x)
            g.group("MAC verification " + h, ver, per)
        g.group("HKDF " + h, lambda s, B, i: s.hkdf_ext(h, B(13), B(22), d).hkdf_exp(h, B(d), B(10), 2 * d + 5), per)
        # longer arguments
        g.group("hash " + h, lambda s, B, i: s.hash_one(h, B(X(700, 3000))), 2)
        g.group("MAC " + h, lambda s, B, i: s.hmac_one(h, B(20 + 2 * b), B(X(600, 3000))), 2)
    for a, k in AES.items():
        def blk(s, B, i):
            key = B(k)
            s.blk_new(1, a, key)
            for x in (B(16), B(16), key[:16], bytes(16)):
                s.blk(1, x)
        g.group("block cipher " + a, blk, per + 2)
    for alg in ["chachapoly", "gcm-aes128", "gcm-aes192", "gcm-aes256"]:
        kl = 32 if alg == "chachapoly" else AES[alg[4:]]
        for a, n in X([(0, 0), (5, 33), (20, 64), (70, 400)], [(0, 0), (5, 33), (20, 64), (16, 16), (1, 1), (0, 130), (50, 0), (64, 256)]):
            def aead(s, B, i):
                key, nonce, aad, pt = B(kl), B(12), B(a), B(n)
                ks = ref.aead_ks(alg, key, nonce, n)
                ct = ref.xor(pt, ks)
                t = ref.aead_tag(alg, key, nonce, aad, ct)
                s.aead_new(1, alg, key).aead_seal(1, nonce, aad, pt, n).aead_open(1, nonce, aad, ct, t, n, 7)
                # ciphertexts of zeros only, and nothing but zeros to authenticate
                s.aead_seal(1, nonce, aad, ks, n).aead_seal(1, nonce, bytes(a), ks, n)
                vs = [x for x in tag_variants(r, t, patterns) if x != t]
                for x in vs if i < 2 and n < 300 else r.sample(vs, 3):
                    s.aead_open(1, nonce, aad, ct, x, n, 7)
            g.group(alg, aead, per if n < 300 else 2)
    for sizes in X([(1, 63, 64), (70, 3, 130), (400, 300, 600)], [(1, 63, 64), (70, 3, 130), (0, 64, 200), (63, 2, 1)]):
        def st(s, B, i):
            s.st_new(1, B(32), B(12)).st_enc(1, B(sizes[0]), sizes[0]).st_take(1, sizes[1]).st_dec(1, B(sizes[2]), sizes[2])
        g.group("stream", st, per if sum(sizes) < 1000 else 3)

    def v16(s, B, i):
        x = B(16)
        s.v16(x, x)
        for y in tag_variants(r, x, patterns):
            if y != x:
                s.v16(x, y)
    g.group("tag comparison", v16, per)
    # Poly1305 with its accumulator at extreme values, next to random messages of the same shape
    p = G(SEED * 92)
    gens.poly_crafted(p, X(2, 8))
    for s in p.s:
        ops = [e for e in s.events if e["op"] == "aead_seal"]
        key = bytes.fromhex(s.events[0]["key"][0])
        out = []
        for e in r.sample(ops, min(len(ops), X(12, 40))):
            x = Session("ChaCha20-Poly1305 with its accumulator at extreme values")
            f = {k: bytes.fromhex(e[k][0]) for k in ("nonce", "aad", "d")}
            x.aead_new(1, "chachapoly", key).aead_seal(1, f["nonce"], f["aad"], f["d"], e["n"])
            x.aead_seal(1, f["nonce"], f["aad"], r.randbytes(e["n"]), e["n"]).aead_seal(1, f["nonce"], r.randbytes(len(f["aad"])), r.randbytes(e["n"]), e["n"])
            out.append(x)
        g.groups.append(out)
    # GHASH with sparse and extreme values: keys are random, data is not
    for alg in ["gcm-aes128"]:
        g.group("GHASH of extreme data", lambda s, B, i: s.aead_new(1, alg, B(16)).aead_seal(1, B(12), specials(r, 32)[i % 5], specials(r, 48)[(i // 5) % 5], 48), per * 2)


def curves(g, nx, ned):
    """one session per call: they are long, and go to different processes"""
    r = g.r
    us, ks = gens.u_specials(), gens.sk_specials()

    def dh(s, B, i):
        j = i // 2
        s.x_dh(B(32) if i % 2 else ks[j % len(ks)], us[j % len(us)] if i % 2 else B(32))
    g.group("X25519", dh, nx)
    g.group("X25519 public key", lambda s, B, i: s.x_pk(B(32) if i % 2 else ks[i // 2 % len(ks)]), max(2, nx // 3))
    # results at extreme values
    ts = [0, 1, 2, 18, 19, 20, ref.P - 1, ref.P - 2, ref.P - 19, ref.P - 20, 1 << 51, 1 << 26, (1 << 255) - 20 - 19, 1 << 254]
    out = []
    for t in r.sample(ts, min(len(ts), nx // 2)):
        k = r.randbytes(32)
        u = gens.x_preimage(k, t)
        if u is not None:
            s = Session("X25519 with an extreme result")
            out.append(s.x_dh(k, gens.le(u)))
    g.groups[-2] += out
    g.group("Ed25519 public key", lambda s, B, i: s.ed_pk(B(32)), ned)
    g.group("Ed25519 signature", lambda s, B, i: s.ed_sign(B(32), B(33)), ned)


def record(binary, groups, config, limit):
    """groups with replies and leaks: lists of event lists, one list per process"""
    d = os.path.join(BUILD, "run", "%d-%s" % (os.getpid(), config))
    os.makedirs(d, exist_ok=True)

    def one(k):
        sess = groups[k]
        plan, out = os.path.join(d, "plan%04d" % k), os.path.join(d, "out%04d" % k)
        with open(plan, "w") as f:
            for s in sess:
                f.write("S\n" + "\n".join(s.lines) + "\n")
        rd, wr = os.pipe()
        # an empty environment: the stack starts at the same place everywhere
        run = subprocess.Popen(TOOL + KIND[config][1].split() + ["--log-fd=%d" % wr, binary, "run", plan, out], stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, pass_fds=[wr], env={"PATH": "/usr/bin:/bin", "HOME": "/"}, cwd=d)
        os.close(wr)
        hsh = subprocess.Popen([binary, "hash", KIND[config][2]], stdin=rd, stdout=subprocess.PIPE, text=True)
        os.close(rd)
        try:
            leaks, _ = hsh.communicate(timeout=limit)
            err = run.stderr.read().decode(errors="replace")
            rc = run.wait(timeout=60)
        except subprocess.TimeoutExpired:
            run.kill(); hsh.kill()
            raise ToolError("leak recorder: time limit")
        if rc:
            return None, err
        lines = open(out).read().split("\n")[:-1]
        leaks = leaks.split("\n")[:-1]
        events = [(s, e) for s in sess for e in s.events]
        if not len(lines) == len(leaks) == len(events):
            raise ToolError("leak recorder: %d calls, %d replies, %d leaks\n%s" % (len(events), len(lines), len(leaks), err[-1500:]))
        return [dict(e, r=reply(e["op"], l), leak=x) for (s, e), l, x in zip(events, lines, leaks)], err

    try:
        with ThreadPoolExecutor(7) as ex:
            return list(ex.map(one, range(len(groups))))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pack(groups, bins):
    """fewer processes: groups side by side, the longest first"""
    cost = {"x_dh": 320, "x_pk": 320, "ed_pk": 120, "ed_sign": 240}

    def size(g):
        return sum(cost.get(e["op"], 2) for s in g for e in s.events)
    out = [[] for _ in range(bins)]
    weight = [0] * bins
    for g in sorted(groups, key=size, reverse=True):
        k = weight.index(min(weight))
        out[k] += g
        weight[k] += size(g)
    return [g for g in out if g]


def at(sessions, i):
    """the session the i-th call is in, and its number there"""
    for s in sessions:
        if i < len(s.events):
            return s, i
        i -= len(s.events)


def observe(config, groups, bins=7):
    o = Outcome()
    o.configs = [config]
    binary = core.build(KIND[config][0])
    packed = pack(groups, bins)
    rec = record(binary, packed, config, 840)
    bad = [err for ev, err in rec if ev is None]
    if bad:
        raise ToolError("leak recorder: a call did not return: " + bad[0][-1500:])
    good = range(len(rec))
    d = os.path.join(BUILD, "run", "%d-%s-leak" % (os.getpid(), config))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "trace.ndjson")
    try:
        with open(path, "w") as f:
            for k in good:
                f.write(json.dumps({"ev": rec[k][0]}, separators=(",", ":")) + "\n")
        rc, out, gen, dist = core.tlc("Leakage", env={"TRACE": path})
        if rc:
            raise ToolError("Leakage (%d):\n%s" % (rc, out[-3000:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    text = out.replace("\n", " ")
    views = sum(int(x) for x in re.findall(r'<<\s*"VIEWS",\s*\d+,\s*(\d+)\s*>>', text))
    seen = set()
    for m in re.finditer(r'<<\s*"LEAKED",\s*(\d+),\s*(\d+),\s*(\d+),\s*"(\w+)",\s*"(.*?)",\s*"(.*?)"\s*>>', text):
        k, first, pos = good[int(m.group(1)) - 1], int(m.group(2)) - 1, int(m.group(3)) - 1
        if (k, pos) in seen:
            continue
        seen.add((k, pos))
        (a, _), (b, i) = at(packed[k], first), at(packed[k], pos)
        rep = Session("what an observer sees of %s depends on secrets: %s" % (m.group(4), b.why))
        for x in [a, b] if a is not b else [a]:
            rep.lines += x.lines
            rep.events += x.events
        o.findings.append(Finding(rep, "call %d of its session (%s): an earlier call with the same view showed %s, this one %s (events, digest)" % (
            i + 1, m.group(4), core.unescape(m.group(5)), core.unescape(m.group(6))), config))
    o.states, o.transitions = dist, gen
    o.traces = sum(len(packed[k]) for k in good)
    o.calls = sum(len(rec[k][0]) for k in good)
    o.samples = [{"about": packed[good[0]][0].why, "configuration": config, "calls": [core.trim(e) for e in rec[good[0]][0][:4]]}] if good else []
    o.notes["observed, " + config] = {"calls": o.calls, "views": views, "events": sum(int(e["leak"].split()[0]) for k in good for e in rec[k][0])}
    return o


def confirm(findings):
    """What the optimised build shows counts if the code as written shows it, too: optimisers may turn
    what was written without branches into a branch or an access by a secret address."""
    kinds = {}
    for f in findings:
        kinds.setdefault(f.session.why, []).append(f)
    ranked = sorted(((n, f) for fs in kinds.values() for n, f in enumerate(fs[:3])), key=lambda x: x[0])
    picked = [f for _, f in ranked][:16]
    o = observe("leakall", [[f.session] for f in picked], 7)
    real = {f.session.why.split(": ", 1)[1] for f in o.findings}
    out = [f for f in findings if f.session.why in real]
    rest = sorted({f.session.why for f in picked} - real)
    for w in rest:
        core.log("note: only in the optimised build, " + w)
    return out, rest


def c23():
    st, tr, out = models.explored("Noninterference", "C23-ni", {"LENGTH": X(4, 5)})
    pairs = models.printed(out, "PAIR")
    if {p for p, _, _ in pairs} != {"compareE", "lookup", "ladderB", "mulbitsB"}:
        raise ToolError("Noninterference: a leaky program was not told apart")
    pats = sorted({tuple(x) for p, a, b in pairs if p == "compareE" for x in (a, b) if any(x)})
    total = Outcome()
    total.states, total.transitions = st, tr
    total.notes["model Noninterference"] = {"states": st, "transitions": tr, "telling pairs": len(pairs)}
    for config, per, nx, ned in (("leakrel", X(6, 25), X(30, 160), X(12, 80)), ("leakdev", X(5, 25), X(8, 60), X(4, 30))):
        g = Groups()
        small(g, pats, per)
        curves(g, nx, ned)
        o = observe(config, g.groups)
        if config == "leakrel" and o.findings:
            o.findings, o.notes["leaks of the optimised build only"] = confirm(o.findings)
        total.findings += o.findings
        total.states += o.states; total.transitions += o.transitions
        total.traces += o.traces; total.calls += o.calls
        total.samples = (total.samples + o.samples)[:5]
        total.configs += o.configs
        total.notes.update(o.notes)
    return total
