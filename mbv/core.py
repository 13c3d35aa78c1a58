"""Builds, runs and judges: plans are executed on the library built from /repo and the recorded
sessions are validated against spec/Trace.tla by TLC."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MBV_REPO", "/repo")
BUILD = os.environ.get("MBV_BUILD", os.path.join(VERIF, "build"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ---------------------------------------------------------------- building
def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def java_classes():
    src = os.path.join(VERIF, "java")
    out = os.path.join(BUILD, "classes")
    stamp = os.path.join(out, "STAMP")
    want = tree_hash(src)
    with Lock("java"):
        if os.path.exists(stamp) and open(stamp).read() == want:
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        files = [os.path.join(src, "verif", f) for f in sorted(os.listdir(os.path.join(src, "verif")))]
        r = sh(["javac", "-nowarn", "-cp", JARS, "-d", out] + files)
        if r.returncode:
            raise ToolError("javac failed:\n" + r.stdout)
        open(stamp, "w").write(want)
    return out


# name: (profile, features, output directory)
CONFIGS = {
    "chk": ("chk", "std", "chk"),                # default feature, optimised, overflow checks on
    "rel": ("release", "", "release"),           # no_std, as shipped
    "relstd": ("release", "std", "release"),
    "dev": ("dev", "std", "debug"),              # unoptimised, overflow checks on
    "devno": ("dev", "", "debug"),
    "chkno": ("chk", "", "chk"),
    # the recorder of what an observer sees
    "leakrel": ("release", "leak", "release"),
    "leakdev": ("dev", "leak,std", "debug"),
}


def repo_hash():
    parts = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")]
    for f in ("build.rs", "Cargo.lock"):
        if os.path.exists(os.path.join(REPO, f)):
            parts.append(os.path.join(REPO, f))
    return tree_hash(*parts)


class NoThreads(Exception):
    pass


def build(config, threads=True):
    """Builds the harness with the library from REPO's working tree; returns the binary's path."""
    profile, feats, sub = CONFIGS[config]
    exe = "leak" if "leak" in feats else "harness"
    threads = threads or exe == "leak"
    feats = [f for f in [feats, "threads" if threads and exe != "leak" else ""] if f]
    name = config + ("" if threads else "-nothreads")
    target = os.path.join(BUILD, "cargo", name)
    stamp = os.path.join(target, "STAMP")
    hsrc = os.path.join(VERIF, "harness")
    want = tree_hash(os.path.join(hsrc, "src"), os.path.join(hsrc, "Cargo.toml")) + repo_hash() + REPO
    binary = os.path.join(target, sub, exe)
    with Lock("cargo-" + name):
        if os.path.exists(stamp) and os.path.exists(binary) and open(stamp).read() == want:
            return binary
        # cargo goes by mtime; a change must never be missed
        shutil.rmtree(target, ignore_errors=True)
        os.makedirs(target)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="0",
                   CARGO_TERM_COLOR="never", RUSTFLAGS="", RUSTC_WRAPPER="")
        man = os.path.join(hsrc, "Cargo.toml")
        if REPO != "/repo":
            # development only: the same harness against a scratch copy
            d = os.path.join(target, "pkg")
            shutil.copytree(hsrc, d)
            man = os.path.join(d, "Cargo.toml")
            s = open(man).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(man, "w").write(s)
        cmd = ["cargo", "build", "--offline", "--manifest-path", man, "--target-dir", target, "--bin", exe]
        if profile != "dev":
            cmd += ["--profile", profile]
        if feats:
            cmd += ["--features", ",".join(feats)]
        r = sh(cmd, env=env)
        if r.returncode:
            raise ToolError("build of %s failed:\n%s" % (name, r.stdout[-6000:]))
        open(stamp, "w").write(want)
    return binary


_threads_ok = None


def build_all(configs):
    """Builds with thread support, or without it if only that is what does not compile."""
    global _threads_ok
    first = configs[0]
    threads = True
    try:
        build(first, True)
    except ToolError as e:
        build(first, False)      # raises if the harness does not build at all
        threads = False
        log("note: ciphers cannot be shared between threads: " + str(e)[-800:])
    _threads_ok = threads
    with ThreadPoolExecutor(4) as ex:
        return dict(zip(configs, ex.map(lambda c: build(c, threads), configs))), threads


# ---------------------------------------------------------------- plans
class Rep:
    """The first n bytes of the endless repetition of pat."""

    def __init__(self, pat, n):
        self.pat, self.n = bytes(pat), n

    def __len__(self):
        return self.n


HASHES = {"sha224": (28, 64), "sha256": (32, 64), "sha384": (48, 128), "sha512": (64, 128)}
TOYS = [(1, 1), (1, 7), (2, 3), (4, 8), (8, 8), (16, 16), (16, 64), (20, 64), (28, 64), (31, 33),
        (32, 32), (32, 64), (32, 136), (33, 64), (47, 48), (48, 104), (63, 65), (64, 64), (64, 72),
        (64, 128), (64, 200), (64, 256), (64, 257), (48, 300), (32, 1024), (16, 5000)]
SHAS = list(HASHES)
AES = {"aes128": 16, "aes192": 24, "aes256": 32}


def hsizes(h):
    if h.startswith("toy:"):
        _, d, b = h.split(":")
        return int(d), int(b)
    return HASHES[h]


def hrec(h):
    d, b = hsizes(h)
    return {"alg": "toy" if h.startswith("toy:") else h, "d": d, "b": b}


# operation: arguments in plan order; kind by name
OPS = {
    "hash_new": "o h", "hash_up": "o d", "hash_fin": "o n", "hash_one": "h d", "hash_sizes": "h",
    "hmac_new": "o h key", "hmac_up": "o d", "hmac_tag": "o", "hmac_one": "h key d",
    "hmac_verify": "h key d tag", "hkdf_ext": "h salt ikm n", "hkdf_exp": "h prk info n",
    "blk_new": "o alg key", "blk": "o d", "st_new": "o key nonce", "st_take": "o n", "st_nth": "o n",
    "st_skip": "o by", "st_enc": "o d n", "st_dec": "o d n", "aead_new": "o alg key",
    "aead_seal": "o nonce aad d n", "aead_open": "o nonce aad d tag n fill",
    "aead_fix": "o nonce aad an d n win",
    "hash_big": "h d n tail piece",
    "hmac_big": "h d n tail piece key", "x_pk": "sk", "x_dh": "sk pk", "ed_pk": "sk",
    "ed_sign": "sk d", "ed_bulk": "sk d n", "ed_long": "sk d n", "ed_vlong": "pk d n sig",
    "hmac_longkey": "h d n tail info", "st_long": "o by", "st_nthl": "o by", "ed_verify": "pk d sig", "v16": "x y", "law": "name seed count", "chain": "name d n",
    "gcm_probe": "len last", "aead_long": "alg dir len", "aead_rep": "o nonce aad an d n tag", "st_jump": "o by", "aead_mac": "o nonce aad an",
}
OPS = {k: v.split() for k, v in OPS.items()}
BYTES = {"d", "key", "nonce", "aad", "tag", "salt", "ikm", "info", "prk", "sk", "pk", "sig", "x", "y", "tail"}
BOOL = {"hmac_verify", "ed_verify", "ed_vlong", "v16"}


class Session:
    def __init__(self, why):
        self.why = why          # what this session is about
        self.lines = []         # plan lines
        self.events = []        # events without replies, in reply order
        self.limit = None       # seconds it may take, if it is a long one
        self.weight = 0         # estimated seconds on an interpreted machine

    def op(self, name, *args, **kw):
        names = OPS[name]
        vals = dict(zip(names, args), **kw)
        assert set(vals) == set(names), (name, vals)
        line, ev = [name], {"op": name}
        for a in names:
            v = vals[a]
            if a in BYTES:
                if isinstance(v, Rep):
                    if len(v) == 0:
                        line.append("-"); ev[a] = [""]
                    else:
                        line.append("%s*%d" % (v.pat.hex(), v.n)); ev[a] = [v.pat.hex(), v.n]
                else:
                    line.append(bytes(v).hex() or "-"); ev[a] = [bytes(v).hex()]
            elif a == "h":
                line.append(v); ev[a] = hrec(v)
            elif a == "by":
                line.append(str(v)); ev[a] = [v.to_bytes(8, "little").hex()]
            elif a == "win":
                line.append(",".join("%d:%d" % w for w in v) or "-"); ev[a] = [list(w) for w in v]
            elif a == "len":
                line.append(str(v)); ev[a] = [v.to_bytes(8, "little").hex()]
            else:
                line.append(str(v)); ev[a] = v
        self.lines.append(" ".join(line))
        self.events.append(ev)
        return self

    def __getattr__(self, name):
        if name in OPS:
            return lambda *a, **k: self.op(name, *a, **k)
        raise AttributeError(name)

    def times(self, k, name, *a, **kw):
        """the call made k times; it must be one that leaves the state as it is"""
        self.op(name, *a, **kw)
        self.lines[-1] = "times %d %s" % (k, self.lines[-1])
        self.events.append(self.events[-1])
        return self

    def parallel(self, parts):
        """parts: sessions whose operations run in parallel threads on this session's ciphers"""
        self.lines.append("par")
        for p in parts:
            self.lines.append("thread")
            self.lines += p.lines
            self.events += p.events
        self.lines.append("endpar")

    def cost(self):
        return sum(len(l) for l in self.lines)


def jb(h):
    return [""] if h == "-" else [h]


def reply(op, text):
    t = text.split(" ")
    if t[0] == "panic":
        return {"t": "panic"}
    if t[0] == "unavailable":
        return {"t": "unavailable"}
    if t[0] != "ok":
        raise ToolError("unknown reply " + text[:200])
    v = t[1:]
    if op in BOOL:
        r = v[0] == "T"
    elif op == "hash_sizes":
        r = [int(v[0]), int(v[1])]
    elif op == "law":
        r = [v[0], v[1], v[2]]
    elif op == "aead_seal":
        r = [jb(v[0]), jb(v[1])]
    elif op in ("aead_open", "aead_rep"):
        r = [v[0] == "T", jb(v[1])]
    elif op == "aead_fix":
        r = [v[0] == "T", jb(v[1]), jb(v[2]), v[3] == "T"]
    elif op in ("gcm_probe", "aead_long"):
        r = v[0]
    else:
        r = jb(v[0])
    return {"t": "ok", "v": r}


class Finding:
    def __init__(self, session, what, config):
        self.session, self.what, self.config = session, what, config


# ---------------------------------------------------------------- execution
def run_harness(binary, sessions, tag, limit):
    """Replies per session: list of lines.  Returns (replies, findings)."""
    d = os.path.join(BUILD, "run", "%d-%s" % (os.getpid(), tag))
    os.makedirs(d, exist_ok=True)
    findings = []
    try:
        todo = list(range(len(sessions)))
        replies = {}
        while todo:
            plan, out = os.path.join(d, "plan"), os.path.join(d, "out")
            with open(plan, "w") as f:
                for i in todo:
                    f.write("S %d%s\n%s\n" % (i, " %d" % sessions[i].limit if sessions[i].limit else "", "\n".join(sessions[i].lines)))
            try:
                r = subprocess.run([binary, plan, out, str(limit)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, timeout=limit * 3 + 3000, errors="replace")
            except subprocess.TimeoutExpired:
                raise ToolError("harness does not end")
            if r.returncode == 0:
                cur = None
                for line in open(out):
                    line = line.rstrip("\n")
                    if line.startswith("S "):
                        cur = replies.setdefault(int(line[2:]), [])
                    else:
                        cur.append(line)
                break
            m = re.search(r"^HANG (\d+)", r.stdout, re.M)
            if r.returncode == 3 and m:
                i = int(m.group(1))
                findings.append(Finding(sessions[i], "call does not return", tag))
                # one is enough; nothing else of this configuration is judged
                return replies, findings
            if r.returncode == 4:
                raise ToolError("harness error: " + r.stderr[-2000:])
            # killed: find a session that does it alone
            prog = [int(x) for x in open(out + ".progress").read().split() if x.isdigit()] if os.path.exists(out + ".progress") else []
            bad = None
            last = prog[-1] if prog else 0
            cand = [i for i in todo if i >= last - 64 * 9][:1200] if len(todo) >= 64 else todo
            for i in cand:
                with open(plan, "w") as f:
                    f.write("S %d%s\n%s\n" % (i, " %d" % sessions[i].limit if sessions[i].limit else "", "\n".join(sessions[i].lines)))
                try:
                    q = subprocess.run([binary, plan, out, str(limit)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(limit, sessions[i].limit or 0) + 60)
                except subprocess.TimeoutExpired:
                    continue
                if q.returncode not in (0, 4):
                    bad = i
                    break
            if bad is None:
                raise ToolError("harness died (%d): %s" % (r.returncode, r.stderr[-2000:]))
            findings.append(Finding(sessions[bad], "call ends the process (status %d)" % q.returncode, tag))
            return replies, findings
        return replies, findings
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc(module, cfg=None, env=None, args=(), accel="all", timeout=1500, workers="auto", cwd=None, xmx="8g"):
    classes = java_classes()
    meta = os.path.join(BUILD, "tlc", "%d-%s-%d" % (os.getpid(), os.path.basename(module), random.getrandbits(30)))
    os.makedirs(meta, exist_ok=True)
    cwd = cwd or os.path.join(VERIF, "spec")
    cmd = ["java", "-Xss64m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp", classes + ":" + JARS,
           "-DTLA-Library=" + os.path.join(VERIF, "spec"),
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.Overrides",
           "-Dverif.accel=" + accel, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"]
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(args) + [module]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd,
                           env=dict(os.environ, **(env or {})), timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise ToolError("TLC on %s: time limit" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.returncode, r.stdout, gen, dist


def unescape(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def validate(items, tag, lens="value"):
    """items: (number, events with replies).  Returns (rejections, states, transitions)."""
    d = os.path.join(BUILD, "run", "%d-%s-trace" % (os.getpid(), tag))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "trace.ndjson")
    try:
        with open(path, "w") as f:
            for num, ev in items:
                f.write(json.dumps({"sid": num, "ev": ev}, separators=(",", ":")) + "\n")
        # INVARIANT would stop at the first rejection; Trace.tla prints every one of them
        rc, out, gen, dist = tlc("Trace", env={"TRACE": path, "LENS": lens}, args=["-continue"])
        rej = []
        for m in re.finditer(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*"(.*?)",\s*"(.*?)"\s*>>', out.replace("\n", " ")):
            # TLC prints a rejection again when it reports the invariant
            if any(r[0] == int(m.group(1)) for r in rej):
                continue
            rej.append((int(m.group(1)), int(m.group(2)) - 1, m.group(3), unescape(m.group(4)), unescape(m.group(5))))
        if rc != 0 and not rej:
            raise ToolError("TLC rejects the trace file itself (%d):\n%s" % (rc, out[:3000] + "\n...\n" + out[-3000:]))
        expect = sum(1 + len(ev) for _, ev in items)
        if not rej and dist != expect:
            raise ToolError("TLC consumed %d states of %d" % (dist, expect))
        return rej, dist, gen
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- other machines
# name: target; the library and the harness are interpreted by Miri
MACHINES = {
    "i686": "i686-unknown-linux-gnu",            # 32 bits, little endian
    "s390x": "s390x-unknown-linux-gnu",          # 64 bits, big endian
    "ppc": "powerpc-unknown-linux-gnu",          # 32 bits, big endian
}


class NoMachine(Exception):
    pass


def machine_command(name):
    """Builds for the machine; returns (command, environment).  Raises NoMachine if the interpreter cannot be had, ToolError if the
    library does not build for it."""
    target = MACHINES[name]
    d = os.path.join(BUILD, "miri", name)
    hsrc = os.path.join(VERIF, "harness")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
               CARGO_TERM_COLOR="never", RUSTFLAGS="-Zmir-opt-level=3", MIRI_SYSROOT=os.path.join(d, "sysroot"),
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows "
                         "-Zmiri-disable-validation -Zmiri-disable-alignment-check -Zmiri-preemption-rate=0")
    with Lock("miri-" + name):
        stamp = os.path.join(d, "SYSROOT")
        if not os.path.exists(stamp):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            try:
                r = sh(["cargo", "miri", "setup", "--target", target], env=env, cwd=d, timeout=400)
            except (OSError, subprocess.TimeoutExpired) as e:
                raise NoMachine(str(e))
            if r.returncode:
                raise NoMachine(r.stdout[-1500:])
            open(stamp, "w").write("")
        want = tree_hash(os.path.join(hsrc, "src"), os.path.join(hsrc, "Cargo.toml")) + repo_hash() + REPO
        stamp = os.path.join(d, "STAMP")
        tdir = os.path.join(d, "target")
        man = os.path.join(hsrc, "Cargo.toml")
        if REPO != "/repo":
            man = os.path.join(d, "pkg", "Cargo.toml")
        cmd = ["cargo", "miri", "run", "-q", "--offline", "--manifest-path", man, "--target-dir", tdir, "--target", target, "--bin", "harness", "--"]
        if not (os.path.exists(stamp) and open(stamp).read() == want):
            shutil.rmtree(tdir, ignore_errors=True)
            if REPO != "/repo":
                shutil.rmtree(os.path.join(d, "pkg"), ignore_errors=True)
                shutil.copytree(hsrc, os.path.join(d, "pkg"))
                t = open(man).read().replace('path = "/repo"', 'path = "%s"' % REPO)
                open(man, "w").write(t)
            plan = os.path.join(d, "plan")
            open(plan, "w").write("")
            r = sh(cmd + [plan, os.path.join(d, "out")], env=env, timeout=400)
            if r.returncode:
                if "could not compile `crypto-pure`" in r.stdout:
                    raise ToolError(r.stdout[-3000:])
                raise NoMachine(r.stdout[-1500:])
            open(stamp, "w").write(want)
    return cmd, env


def run_machine(name, sessions, procs, limit):
    """As run_harness, on an interpreted machine, in several processes."""
    try:
        cmd, env = machine_command(name)
    except ToolError as e:
        return {}, [Finding(None, "the library does not build for %s: %s" % (MACHINES[name], str(e)), name)]
    d = os.path.join(BUILD, "run", "%d-%s" % (os.getpid(), name))
    os.makedirs(d, exist_ok=True)
    order = sorted(range(len(sessions)), key=lambda i: -sessions[i].weight)
    parts, load = [[] for _ in range(procs)], [0] * procs
    for i in order:
        k = load.index(min(load))
        parts[k].append(i)
        load[k] += sessions[i].weight + 0.01

    def one(k):
        plan, out = os.path.join(d, "plan%d" % k), os.path.join(d, "out%d" % k)
        with open(plan, "w") as f:
            for i in parts[k]:
                f.write("S %d 100000\n%s\n" % (i, "\n".join(sessions[i].lines)))
        try:
            r = subprocess.run(cmd + [plan, out], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, errors="replace")
        except subprocess.TimeoutExpired:
            raise NoMachine("not done within %d s" % limit)
        if r.returncode:
            raise NoMachine("status %d: %s" % (r.returncode, r.stderr[-1500:]))
        rep = {}
        for line in open(out):
            line = line.rstrip("\n")
            if line.startswith("S "):
                cur = rep.setdefault(int(line[2:]), [])
            else:
                cur.append(line)
        return rep
    try:
        with ThreadPoolExecutor(procs) as ex:
            replies = {}
            for r in ex.map(one, range(procs)):
                replies.update(r)
        return replies, []
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Outcome:
    def __init__(self):
        self.findings = []
        self.states = self.transitions = self.traces = self.calls = 0
        self.configs = []
        self.samples = []
        self.notes = {}


def conform(sessions, configs=("chk", "rel"), limit=240, must_agree=False, tag="t", lens="value"):
    """Runs the sessions in every configuration and validates what was recorded."""
    out = Outcome()
    bins, threads = build_all([c for c in configs if c not in MACHINES])
    recorded = {}
    machines = [c for c in configs if c in MACHINES]
    if machines:
        def on(c):
            try:
                return run_machine(c, sessions, max(2, 8 // len(machines)), 600)
            except NoMachine as e:
                log("note: nothing was run on %s: %s" % (c, e))
                return None
        with ThreadPoolExecutor(len(machines)) as ex:
            got = dict(zip(machines, ex.map(on, machines)))
        configs = [c for c in configs if c not in MACHINES or got[c]]
    out.configs = list(configs)
    for c in configs:
        rep, fs = got[c] if c in MACHINES else run_harness(bins[c], sessions, c, limit)
        out.findings += fs
        recorded[c] = rep
    items, origin = [], []
    seen = {}
    for i, s in enumerate(sessions):
        variants = {}
        for c in configs:
            if i not in recorded[c]:
                continue
            lines = recorded[c][i]
            if len(lines) != len(s.events):
                raise ToolError("session %d: %d replies to %d calls" % (i, len(lines), len(s.events)))
            ev = [dict(e, r=reply(e["op"], l)) for e, l in zip(s.events, lines)]
            variants.setdefault(json.dumps([e["r"] for e in ev]), (c, ev))
            out.traces += 1
            out.calls += len(ev)
        if must_agree and len(variants) > 1:
            (k1, (c1, e1)), (k2, (c2, e2)) = list(variants.items())[:2]
            j = next(j for j in range(len(e1)) if e1[j]["r"] != e2[j]["r"])
            out.findings.append(Finding(s, "call %d (%s): %s in configuration %s, %s in configuration %s" % (
                j + 1, e1[j]["op"], short(e1[j]["r"]), c1, short(e2[j]["r"]), c2), c2))
        for c, ev in variants.values():
            items.append((len(items), ev))
            origin.append((i, c))
        if len(out.samples) < 3 and i in (0, len(sessions) // 2, len(sessions) - 1):
            for c, ev in list(variants.values())[:1]:
                out.samples.append({"about": s.why, "configuration": c,
                                    "calls": [trim(e) for e in ev[:6]]})
    if items:
        rej, st, tr = validate(items, tag, lens)
        out.states += st
        out.transitions += tr
        for num, pos, op, got, want in rej:
            i, c = origin[num]
            out.findings.append(Finding(sessions[i], "call %d (%s): replied %s, the specification permits %s" % (
                pos + 1, op, short(got), short(want)), c))
    out.threads = threads
    return out


def short(x, n=400):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def trim(e):
    def f(v):
        if isinstance(v, str) and len(v) > 80:
            return v[:80] + "...(%d digits)" % len(v)
        if isinstance(v, list):
            return [f(x) for x in v]
        if isinstance(v, dict):
            return {k: f(x) for k, x in v.items()}
        return v
    return f(e)


def write_replay(prop, n, finding):
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.plan" % (prop, n))
    with open(p, "w") as f:
        # comments come first; python3 run.py replay FILE runs it again
        f.write("# property %s, configuration %s\n# about: %s\n# %s\n" % (prop, finding.config, finding.session.why if finding.session else "-", finding.what))
        if finding.session:
            f.write("# events " + json.dumps(finding.session.events) + "\n")
            f.write("S 0\n" + "\n".join(finding.session.lines) + "\n")
    return p
