"""The properties: for each one which sessions are run in which configurations, and which models of
the specification are checked exhaustively."""
import json, os, random, re, sys, time
from concurrent.futures import ThreadPoolExecutor
from . import core, gens, leak, models
from .core import Finding, Outcome, SEED, TIER, THOROUGH, VERIF, conform, log
from .gens import G, X, SHAS

AESGCM = ["gcm-aes128", "gcm-aes192", "gcm-aes256"]


def _c01(g):
    gens.sha_lengths(g); gens.sha_chains(g); gens.sha_mid(g)


def _c02(g):
    gens.chunk_matrix(g); gens.interleave(g, X(120, 1500)); gens.many_pieces(g); gens.many_updates(g)
    gens.laws(g, ["chunk", "macchunk"], 8, X(60000, 300000))


def _c03(g):
    gens.hmac_keys(g); gens.hmac_chains(g); gens.long_hmac(g)


def _c04(g):
    gens.hmac_verify(g); gens.laws(g, ["macverify"], 8, X(40000, 300000)); gens.long_verify(g)


def _c05(g):
    gens.hkdf(g); gens.laws(g, ["hkdfprefix"], 4, X(3000, 50000)); gens.long_hkdf(g)


def _c07(g):
    gens.stream_positions(g); gens.long_stream(g)


def _c08(g):
    gens.stream_history(g, X(150, 2000), True); gens.laws(g, ["stream"], 8, X(60000, 300000)); gens.long_stream(g)


def _c09(g):
    gens.aead_seal(g, ["chachapoly"]); gens.poly_crafted(g, X(12, 150)); gens.poly_extreme_keys(g)
    gens.aead_long(g, "chachapoly", X(70000 * 4, 1 << 22)); gens.long_aead(g, ["chachapoly"])


def _c10(g):
    gens.aead_open(g, ["chachapoly"], X(8, 60)); gens.poly_crafted(g, X(4, 40), reject=True)
    gens.laws(g, ["aead"], 8, X(40000, 100000)); gens.long_open(g, ["chachapoly"])


def _c11(g):
    gens.aead_seal(g, AESGCM); gens.ghash_crafted(g, X(12, 100))
    for a in AESGCM[:X(2, 3)]:
        gens.aead_long(g, a, X(70000, 1 << 18))
    gens.long_aead(g, AESGCM)


def _c12(g):
    gens.aead_open(g, AESGCM, X(4, 25)); gens.ghash_crafted(g, X(8, 80), True); gens.laws(g, ["aead"], 8, X(40000, 100000)); gens.long_open(g, AESGCM)


def _c14(g):
    gens.dh_laws(g)


def _c15(g):
    gens.ed_sign(g); gens.ed_edges(g); gens.long_sign(g); gens.ed_bulk(g)


def _c16(g):
    gens.ed_valid(g); gens.ed_edges(g); gens.laws(g, ["sig"], X(8, 16), X(20000, 100000)); gens.long_edver(g, True)


def _c17(g):
    gens.ed_invalid(g); gens.ed_compare(g); gens.ed_nonpoints(g); gens.ed_crafted(g, X(12, 120)); gens.laws(g, ["sigbad"], X(8, 16), X(15000, 80000)); gens.long_edver(g, False)


def _c19(g):
    gens.panics(g); gens.probes(g); gens.probe_last(g)
    everything(g, X(60, 600))
    gens.laws(g, ["dh", "dh3", "clamp", "sig", "sigbad", "aead", "chunk", "macchunk", "macverify", "stream", "hkdfprefix"], 4, X(3000, 100000))


def _c19_dev(g):
    gens.panics(g); everything(g, X(15, 100))


def _c20(g):
    gens.purity(g, X(60, 600)); gens.threads(g, X(16, 150)); gens.contention(g, X(1, 6)); gens.interleave(g, X(30, 300)); gens.stream_history(g, X(20, 200)); gens.wear(g); gens.neighbours(g, X(20, 200)); gens.purity_curves(g, X(60, 600)); gens.purity_macs(g, X(60, 600))


def sample(g, fs, per, most=60000):
    """some sessions of each of the other generators"""
    for f in fs:
        h = G(g.r.randrange(1 << 30))
        f(h)
        small = [s for s in h.s if s.cost() < most and not any(w in s.why for w in ("limit", "longest", "more than"))]
        g.s += h.r.sample(small, min(per, len(small)))


def everything(g, per):
    sample(g, [gens.sha_lengths, gens.sha_mid, gens.chunk_matrix, gens.hmac_keys, gens.hmac_verify, gens.hkdf, gens.aes,
               lambda h: gens.stream_history(h, 60), lambda h: gens.aead_seal(h, AESGCM + ["chachapoly"]),
               lambda h: gens.aead_open(h, AESGCM + ["chachapoly"], 2), lambda h: gens.poly_crafted(h, 2), gens.x25519,
               gens.ed_compare, gens.ed_nonpoints, lambda h: gens.purity_curves(h, 8), lambda h: gens.purity_macs(h, 8), gens.many_pieces,
               lambda h: gens.ed_crafted(h, 2), gens.ed_sign, gens.ed_valid, gens.ed_invalid, gens.panics, gens.v16, lambda h: gens.purity(h, 12), gens.toys],
           per)
    sample(g, [gens.long_hmac, gens.long_verify, gens.long_hkdf, gens.long_stream, lambda h: gens.long_aead(h, AESGCM + ["chachapoly"]),
               lambda h: gens.long_open(h, AESGCM + ["chachapoly"]), gens.long_sign, lambda h: gens.long_edver(h, False)], max(4, per // 6), 2000000)


def _c21(g):
    everything(g, X(25, 200))
    gens.laws(g, ["dh", "sig", "sigbad", "aead", "chunk", "stream", "hkdfprefix"], X(2, 4), X(150, 2000))
    for alg in core.AES:
        g.new("iterated " + alg).chain(alg, g.rnd(core.AES[alg] + 16), 300)
    for h in SHAS:
        d = core.HASHES[h][0]
        for n in (253 * d, 254 * d - 1, 254 * d, 255 * d):
            g.new("HKDF at full length").hkdf_exp(h, g.rnd(d), b"", n)
    gens.megabytes(g)


def _c22(g):
    gens.toys(g)
    gens.long_hmac(g, ["toy:20:64", "toy:64:200"]); gens.long_verify(g, ["toy:32:136"]); gens.long_hkdf(g, ["toy:33:64"])
    gens.long_aead(g, ["gcm-toyid", "gcm-toymix"]); gens.long_open(g, ["gcm-toyxor"])
    for c in ("gcm-toyid", "gcm-toyxor", "gcm-toymix"):
        gens.aead_long(g, c, X(1 << 17, 1 << 20))


def far_positions():
    """The harness moves streams to far positions by changing what it takes for their counter.  What
    seems wrong there is only believed once it is seen after drawing every byte."""
    guess = conform([s for _, s in gens.stream_jumps(G(SEED), "st_jump")], ("rel",), tag="j")
    bad = {id(f.session) for f in guess.findings}
    if not bad or any("(st_jump)" in f.what or "call 3 " in f.what for f in guess.findings):
        if bad:
            guess = Outcome()
            guess.notes["far positions"] = "the stream's counter was not found; positions reached by drawing only"
        else:
            guess.notes["far positions"] = "moved by changing the stream's counter"
        guess.findings = []
        return guess
    names = {f.session.why for f in guess.findings}
    real = sorted(((p, s) for p, s in gens.stream_jumps(G(SEED), "st_skip") if s.why in names), key=lambda x: x[0])
    limit = X(1 << 36, 1 << 38)
    real = [s for p, s in real if p <= limit][:2]
    log("far positions to be confirmed by drawing every byte: %s" % ", ".join(s.why for s in real))
    o = conform(real, ("rel",), tag="j2") if real else Outcome()
    return o


# parts of checks that are not just sessions
# what is compared (spec/Trace.tla)
LENS = {"C19": "outcome"}

SPECIAL = {"C07": [far_positions], "C23": [leak.c23]}

STD = ("chk", "rel")
REL = ("rel",)
ALL = ("chk", "rel", "relstd", "dev", "devno", "chkno")
# id: parts (generator, configurations, all configurations must agree), models
CHECKS = {
    "C01": ([(_c01, STD), (gens.sha_powers, REL), (gens.sha_long, REL)], ["Buffering"]),
    "C02": ([(_c02, STD), (gens.very_long_updates, REL)], ["Buffering", "Interleaving"]),
    "C03": ([(_c03, STD), (gens.hmac_long, REL), (gens.very_long_keys, REL)], ["MacKeys"]),
    "C04": ([(_c04, STD)], ["Comparison"]),
    "C05": ([(_c05, STD)], ["HkdfCounter"]),
    "C06": ([(gens.aes, STD)], ["Interleaving"]),
    "C07": ([(_c07, STD), (gens.stream_far, REL), (gens.very_long_stream, REL)], ["StreamBuffer"]),
    "C08": ([(_c08, STD), (gens.very_long_stream, REL)], ["StreamBuffer", "Interleaving"]),
    "C09": ([(_c09, STD), (gens.long_c09, REL)], ["Counters"]),
    "C10": ([(_c10, STD), (gens.long_c10, REL)], ["AeadAdversary"]),
    "C11": ([(_c11, STD), (gens.long_c11, REL)], ["Counters"]),
    "C12": ([(_c12, STD), (gens.long_c12, REL)], ["AeadAdversary"]),
    "C13": ([(gens.x25519, STD)], ["ToyCurves"]),
    "C14": ([(_c14, STD)], ["ToyCurves"]),
    "C15": ([(_c15, STD), (gens.very_long_sign, REL)], ["ToySignatures"]),
    "C16": ([(_c16, STD), (gens.very_long_verify, REL)], ["ToySignatures", "Windows"]),
    "C17": ([(_c17, STD), (gens.very_long_reject, REL)], ["ToySignatures"]),
    "C18": ([(gens.v16, STD)], ["Comparison"]),
    "C19": ([(_c19, ("chk",)), (_c19_dev, ("dev",)), (gens.panics, ("rel",)), (gens.probes, REL)], ["Counters", "HkdfCounter", "Domains"]),
    "C20": ([(_c20, STD)], ["Interleaving"]),
    "C21": ([(_c21, ALL)], []),
    "C22": ([(_c22, STD), (gens.long_c22, REL)], ["MacKeys"]),
    "C23": ([], []),
    "C24": ([(gens.portable, ("rel", "i686", "s390x") + X((), ("ppc",)))], []),
}


def known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip() and not l.startswith(("#", "fixed:"))]


def check(prop):
    if prop not in CHECKS:
        log("no check for " + prop)
        return 2
    t0 = time.time()
    parts, mods = CHECKS[prop]
    total = Outcome()
    sessions_run = 0
    for mod in mods:
        if not models.exists(mod):
            continue
        st, tr, sess, fs = models.run(mod, prop)
        total.states += st
        total.transitions += tr
        total.notes["model " + mod] = {"states": st, "transitions": tr}
        total.findings += fs
        if sess:
            o = conform(sess, ("chk",), tag="m", lens=LENS.get(prop, "value"))
            merge(total, o)
            sessions_run += len(sess)
            total.notes["model " + mod]["behaviours_replayed"] = len(sess)
    for k, (f, configs) in enumerate(parts):
        g = G(SEED * 1000 + k)
        f(g)
        sessions_run += len(g.s)
        o = conform(g.s, configs, must_agree=(prop in ("C21", "C24")), tag="p%d" % k, lens=LENS.get(prop, "value"))
        merge(total, o)
        if not o.threads and prop == "C20":
            total.findings.append(Finding(None, "cipher objects cannot be shared between threads: the library's cipher types are not Sync", "chk"))
    for f in SPECIAL.get(prop, []):
        o = f()
        total.notes.update(o.notes)
        sessions_run += o.traces
        merge(total, o)
    kf = known()
    violations = 0
    lines = []
    for f in total.findings:
        hit = next((k for k in kf if k["property"] == prop and f.session and k["session"] in "\n".join(f.session.lines)), None)
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
            continue
        violations += 1
        if violations <= 5:
            p = core.write_replay(prop, violations, f)
            log("configuration %s, %s:\n  %s" % (f.config, f.session.why if f.session else "", f.what))
            log("VIOLATION property=%s replay=%s" % (prop, p))
    for l in sorted(set(lines)):
        log(l)
    write_evidence(prop, total, sessions_run, violations, time.time() - t0)
    log("%s: %d sessions, %d traces of the real code validated, %d calls, %d states, %d violations, %.1f s" % (
        prop, sessions_run, total.traces, total.calls, total.states, violations, time.time() - t0))
    return 1 if violations else 0


def merge(t, o):
    t.findings += o.findings
    t.states += o.states
    t.transitions += o.transitions
    t.traces += o.traces
    t.calls += o.calls
    t.samples = (t.samples + o.samples)[:5]
    t.configs = sorted(set(t.configs) | set(o.configs))


def write_evidence(prop, o, sessions, violations, wall):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": o.states, "transitions": o.transitions, "traces_validated_against_impl": o.traces,
            "sessions": sessions, "calls_validated": o.calls, "configurations": o.configs, "models": o.notes,
            "samples": o.samples or [{"about": "no session ran"}],
            "explanation": leak.EXPLANATION if prop == "C23" else "Each session is a history of calls executed on the library as built from /repo in each "
                           "configuration; TLC validated every recorded call and reply against spec/CryptoPure.tla "
                           "(spec/Trace.tla), and checked the listed models exhaustively.",
        },
        "assumptions": ["TLC evaluates spec/ correctly; the Java accelerators agree with the TLA+ definitions "
                        "(sampled by spec/SelfTest.tla at setup)",
                        "inputs outside the sessions are covered only as far as the specification's structure generalises"],
        "wall_s": round(wall, 2), "violations": violations,
    }
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def setup():
    core.java_classes()
    core.build_all(list(ALL))
    for c in ("leakrel", "leakdev"):
        core.build(c)
    for mod, accel in (("Kat", "all"), ("Kat", "kernel")):
        rc, out, *_ = core.tlc(mod, accel=accel)
        if rc:
            log(out[-3000:])
            raise core.ToolError("%s (%s) fails: the specification does not meet the published vectors" % (mod, accel))
    log("specification meets the published vectors")
    self_test()
    return 0


def self_test():
    """The accelerators in java/verif/ must agree with the TLA+ text."""
    def values(group, count, accel):
        rc, out, *_ = core.tlc("SelfTest", env={"GROUP": group, "COUNT": str(count), "SEED": str(SEED)}, accel=accel, workers=4)
        v = dict(re.findall(r'<<\s*"VALUE",\s*(\d+),\s*"(.*?)"\s*>>', out.replace("\n", " ")))
        if rc or len(v) != count:
            raise core.ToolError("SelfTest (%s, %s) fails:\n%s" % (group, accel, out[-3000:]))
        return v
    for group, count, slow, fast in (("kernel", X(60, 300), "none", "kernel"), ("blocks", X(100, 500), "kernel", "all")):
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.map(lambda m: values(group, count, m), (slow, fast))
        bad = [k for k in a if a[k] != b[k]]
        if bad:
            raise core.ToolError("accelerators and specification differ (%s):\n%s\n%s" % (group, a[bad[0]], b[bad[0]]))
        log("accelerators agree with the TLA+ text: %s, %d argument sets" % (group, count))


def replay(path):
    sess = core.Session("replay of " + path)
    config = prop = None
    for line in open(path):
        line = line.rstrip("\n")
        if line.startswith("# property ") and ", configuration " in line:
            config = line.split(", configuration ")[1]
            prop = line[11:].split(",")[0]
        if line.startswith("# events "):
            sess.events = json.loads(line[9:])
        elif line.startswith("#"):
            log(line)
        elif line and not line.startswith("S "):
            sess.lines.append(line)
    if not sess.lines:
        return 1
    if config in leak.KIND:
        o = leak.observe(config, [[sess]], 1)
        for f in o.findings:
            log("configuration %s: %s" % (f.config, f.what))
        log("still violated" if o.findings else "not violated")
        return 1 if o.findings else 0
    o = conform([sess], ("rel", config) if config in core.MACHINES else STD, must_agree=prop in ("C21", "C24"), tag="replay", lens=LENS.get(prop, "value"))
    for f in o.findings:
        log("configuration %s: %s" % (f.config, f.what))
    log("still violated" if o.findings else "not violated")
    return 1 if o.findings else 0
