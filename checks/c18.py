"""C18 - default salts and seeds are fresh, full-size and unpredictable."""
import os
import random
import subprocess
import sys
import threading
import time

from lib import gen, ops, ref
from lib.fw import REPO, Phase

PROP = "C18"
LEVEL = "exploration"
RULE = ("one case = one history of calls without owner salt / seed (sequential with the random module re-seeded and the clock frozen, in threads, in forked "
        "children, in fresh processes, with a chosen or a failing OS random source) or of calls with one given; the salts and seeds recovered from the returned values are "
        "checked for repeats, bias, correlation and rank, and against the bytes drawn from the OS; distinct = distinct salts and seeds observed")
ASSUMPTIONS = ["the OS random source is reached through os.urandom, os.getrandom, random.SystemRandom or secrets (draws made elsewhere are not counted, their values still are tested)",
               "statistical oracles reject at |z| > 7.5, i.e. with probability below 1e-10 per run on truly random values"]
NEED = ("salts observed", "seeds observed", "lot salts observed", "values compared across forks", "values compared across processes", "values compared across threads",
        "given salts found in the code", "given seeds found in the result", "OS draws", "failing random source observed", "draw bits found to matter", "byte values tried at one position", "statistical tests", "arguments repeated", "draws counted per call")
WAITS_FOR_CHILDREN = True
OS = dict(draws=0, bytes=0, feed=None, fail=None)
_lock = threading.Lock()
DEVICE = dict(opens=0)


def prepare(phase):
    """Before the code under test is imported: watch every way to the OS random source."""
    import random as rnd
    import secrets
    real = os.urandom

    def urandom(n):
        with _lock:
            OS["draws"] += 1
            OS["bytes"] += n
            if OS["fail"]:
                raise OS["fail"]("injected: no randomness available")
            if OS["feed"] is not None:
                return OS["feed"](n)
        return real(n)
    os.urandom = urandom
    rnd._urandom = urandom
    if hasattr(os, "getrandom"):
        os.getrandom = lambda n, flags=0: urandom(n)
    assert len(secrets.token_bytes(3)) == 3

    def audit(ev, args):
        if ev == "open" and isinstance(args[0], (str, bytes)) and b"random" in os.fsencode(args[0]):
            DEVICE["opens"] += 1
    sys.addaudithook(audit)
    OS.update(draws=0, bytes=0)


def phases(tier):
    q = tier == "quick"
    return [Phase("values", "stub", 8, n=10 if q else 120, per=120),
            Phase("environments", "stub", 8, n=2 if q else 12)]


def cases(phase, rng, shard, nshards, tier, api):
    s = lambda: rng.randrange(1 << 40)
    if phase.name == "values":
        for _ in range(phase.opts["n"]):
            yield dict(mode="sequential", seed=s(), n=phase.opts["per"])
    else:
        for _ in range(phase.opts["n"]):
            yield dict(mode="threads", seed=s(), threads=8, n=6)
            yield dict(mode="fork", seed=s(), children=4, n=4, warm=rng.choice([0, 1, 7]))
            yield dict(mode="processes", seed=s(), n=2)
            yield dict(mode="feed", seed=s())
            yield dict(mode="fail", seed=s())
            yield dict(mode="given", seed=s(), n=25)
            yield dict(mode="arguments", seed=s(), n=120)


def run(c, api, obs):
    if not hasattr(api, "drawn"):
        api.drawn = dict(salt=[], seed=[], lot=[])
        api.expect = 0
    globals()["do_" + c["mode"]](c, random.Random(c["seed"]), api, obs)


# ------------------------------------------------------------------ drawing and recovering values
PW = "correct horse battery staple"


def salt_of(api, obs, what, code, lot=None, seq=None):
    """owner salt inside an intermediate code"""
    pay = ref.b58check_decode(code) if isinstance(code, str) else None
    if pay is None or len(pay) != 49:
        obs.fail("%s: intermediate_code returned %r" % (what, code))
    if lot is None:
        return pay[8:16]
    if pay[12:16] != (lot * 4096 + seq).to_bytes(4, "big"):
        obs.fail("%s: intermediate_code does not carry lot %d sequence %d" % (what, lot, seq))
    return pay[8:12]


def any_arguments(kind, rng, api):
    """the other arguments of a call without salt/seed"""
    a = dict(none=rng.choice(["left out", "None"]), pw=gen.passphrase(rng)[0], inst=list(rng.choice(api.pairs)))
    if kind == "lot":
        a["lot"], a["seq"] = gen.lotseq(rng, none=0)
    elif kind == "seed":
        lot, seq = gen.lotseq(rng)
        a["inter"] = ref.intermediate(a["pw"], gen.salt(rng, 8), lot, seq, api.kdf)[0]
        a["wt"] = rng.choice(["wif", "wif-compressed"])
        a["named"] = rng.choice([None, a["inst"][1]] + sorted(api.golden[a["inst"][0]]))
    return a


def draw(kind, rng, api, obs, what, pw=PW, inter=None, args=None):
    """one call without salt/seed -> value it used"""
    none = rng.random() < 0.3
    given = {"None": None}
    if kind == "salt":
        on = api.instance(*args["inst"]) if args else api.BIP38
        got = obs.call(on.intermediate_code, args["pw"] if args else pw, **({"owner_salt": given[args["none"]]} if args and args["none"] in given else {"owner_salt": None} if none else {}))
    elif kind == "lot":
        lot, seq = (args["lot"], args["seq"]) if args else gen.lotseq(rng, none=0)
        got = obs.call(api.BIP38.intermediate_code, args["pw"] if args else pw, lot, seq, **({"owner_salt": given[args["none"]]} if args and args["none"] in given else {"owner_salt": None} if none else {}))
    elif args:
        b = api.instance(*args["inst"])
        got = obs.call(b.create_new_encrypted_wif, args["inter"], args["wt"], **dict({"seed": given[args["none"]]} if args["none"] in given else {}, **({"network": args["named"]} if args["named"] else {})))
    else:
        wt = rng.choice(["wif", "wif-compressed"])
        b = api.instance("Bitcoin", rng.choice(["mainnet", "testnet"]))
        got = obs.call(b.create_new_encrypted_wif, inter or fixed_inter(api), wt, **({"seed": None} if none else {}))
    if got[1] is not None:
        obs.fail("%s: %s without %s raised %r" % (what, "create_new_encrypted_wif" if kind == "seed" else "intermediate_code", kind, got[1]))
    if kind == "salt":
        v = salt_of(api, obs, what, got[0])
    elif kind == "lot":
        v = salt_of(api, obs, what, got[0], lot, seq)
    else:
        try:
            v = bytes.fromhex(got[0]["seed"])
        except Exception:
            v = b""
        if len(v) != 24:
            obs.fail("%s: reported seed %r is not 24 bytes" % (what, got[0]))
    if kind != "lot" and len({v[i:i + 4] for i in range(0, len(v), 4)}) == 1 or kind == "seed" and v[:8] in (v[8:16], v[16:]):
        obs.fail("%s: the default %s %s repeats a part of itself" % (what, "seed" if kind == "seed" else "salt", v.hex()))
    obs.count({"salt": "salts observed", "seed": "seeds observed", "lot": "lot salts observed"}[kind])
    obs.nontrivial((kind, v))
    return v


_inter = {}


def fixed_inter(api, i=0):
    if i not in _inter:
        _inter[i] = ref.intermediate("owner %d" % i, bytes([i + 1]) * 8, None, None, api.kdf)[0]
    return _inter[i]


def keep(api, obs, what, kind, values):
    """values must not repeat, among themselves nor with earlier ones (4-byte salts may, very rarely)"""
    have = api.drawn[kind]
    seen = set(have)
    for v in values:
        if v in seen:
            if kind == "lot":
                obs.count("repeats of 4-byte salts")
                if obs.counts["repeats of 4-byte salts"] <= 2 and have.count(v) < 2:
                    have.append(v)
                    continue
            obs.fail("%s: the %s %s was used twice" % (what, "seed" if kind == "seed" else "salt", v.hex()))
        seen.add(v)
        have.append(v)


class Frozen:
    """clock and pid stand still, the random module always starts at the same state"""

    def __enter__(self):
        self.saved = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time", "process_time_ns")}
        for n, f in self.saved.items():
            v = f()
            setattr(time, n, lambda v=v: v)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)


def do_sequential(c, rng, api, obs):
    values = dict(salt=[], lot=[], seed=[])
    reseed, freeze, same_args = rng.random() < 0.6, rng.random() < 0.5, rng.random() < 0.5
    state = random.getstate()
    before, device = dict(OS), DEVICE["opens"]
    frozen = Frozen() if freeze else None
    pws = [PW] if same_args else [gen.passphrase(rng)[0] for _ in range(5)]
    try:
        if frozen:
            frozen.__enter__()
        for i in range(c["n"]):
            if reseed:
                random.seed(1234)
            kind = ("salt", "lot", "seed")[i % 3]
            values[kind].append(draw(kind, random.Random(7) if same_args else rng, api, obs, "call %d" % i, rng.choice(pws),
                                     fixed_inter(api, 0 if same_args else rng.randrange(4))))
            if rng.random() < 0.05:                          # a refused call in between
                obs.call(api.BIP38.intermediate_code, PW, 1, 1)
                obs.call(api.instance("Bitcoin", "mainnet").create_new_encrypted_wif, "passphraseX")
    finally:
        if frozen:
            frozen.__exit__()
        random.setstate(state)
    obs.feature("random module re-seeded before each call" if reseed else "random module left alone",
                "clock frozen" if freeze else "clock running", "same arguments" if same_args else "varying arguments")
    for k, vs in values.items():
        keep(api, obs, "calls with %s" % ("the random module re-seeded" if reseed else "default salt/seed"), k, vs)
    drawn, need = OS["bytes"] - before["bytes"], sum(8 * (k == "salt") + 4 * (k == "lot") + 24 * (k == "seed") for k in values for _ in values[k])
    obs.count("OS draws", OS["draws"] - before["draws"])
    obs.count("bytes drawn from the OS", drawn)
    api.expect += need
    api.got = getattr(api, "got", 0) + drawn
    if DEVICE["opens"] == device and 0 < api.got < api.expect:
        obs.fail("salts and seeds of %d bytes in total were made from only %d bytes of OS randomness" % (api.expect, api.got))


def do_threads(c, rng, api, obs):
    out = [[] for _ in range(c["threads"])]
    errs = []
    gate = threading.Barrier(c["threads"])
    fixed_inter(api)
    for n in ("mainnet", "testnet"):
        api.instance("Bitcoin", n)

    def body(n):
        r = random.Random(5)
        gate.wait()
        try:
            for i in range(c["n"]):
                kind = ("salt", "seed", "lot")[i % 3]
                out[n].append((kind, draw(kind, r, api, obs, "thread %d" % n)))
        except BaseException as e:
            errs.append(e)
    old = sys.getswitchinterval()
    ts = [threading.Thread(target=body, args=(n,), daemon=True) for n in range(c["threads"])]
    try:
        sys.setswitchinterval(1e-6)
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise errs[0]
    for kind in ("salt", "seed", "lot"):
        vs = [v for o in out for k, v in o if k == kind]
        keep(api, obs, "%d threads" % c["threads"], kind, vs)
        obs.count("values compared across threads", len(vs))


def do_fork(c, rng, api, obs):
    """children forked after the parent has drawn some must not continue with the same values"""
    kinds = ("salt", "seed", "lot")
    for i in range(c["warm"]):
        k = kinds[i % 3]
        keep(api, obs, "before the fork", k, [draw(k, rng, api, obs, "before the fork")])
    pipes = []
    for n in range(c["children"]):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                lines = []
                rr = random.Random(5)
                for i in range(c["n"]):
                    k = kinds[i % 3]
                    lines.append("%s %s" % (k, draw(k, rr, api, obs, "child").hex()))
                os.write(w, "\n".join(lines).encode())
            except BaseException as e:
                os.write(w, ("error %s" % e).encode()[:2000])
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    texts = []
    rr = random.Random(5)
    mine = [(k, draw(k, rr, api, obs, "parent after the fork")) for k in kinds]
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            texts.append(f.read().decode())
        os.waitpid(pid, 0)
    for k, v in mine:
        keep(api, obs, "parent after the fork", k, [v])
    for t in texts:
        if t.startswith("error"):
            obs.fail("in a forked child: " + t[6:])
        for line in t.splitlines():
            k, v = line.split()
            keep(api, obs, "forked children", k, [bytes.fromhex(v)])
            obs.count("values compared across forks")


CHILD = """
import sys, random
sys.path.insert(0, sys.argv[1])
import hashlib, scrypt, scrypt.scrypt
scrypt.hash = scrypt.scrypt.hash = lambda password, salt, N=0, r=0, p=0, buflen=64: hashlib.shake_256(repr((password, salt)).encode()).digest(buflen)
hashlib.scrypt = lambda password, *, salt=None, n=0, r=0, p=0, maxmem=0, dklen=64: hashlib.shake_256(repr((password, salt)).encode()).digest(dklen)
random.seed(7)
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
print(BIP38.intermediate_code("pw"), BIP38.intermediate_code("pw", 100000, 0), BIP38(Bitcoin).create_new_encrypted_wif(sys.argv[2])["seed"])
"""


def do_processes(c, rng, api, obs):
    ps = [subprocess.Popen([sys.executable, "-B", "-c", CHILD, REPO, fixed_inter(api)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=dict(os.environ, PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX="/nonexistent-verif-pycache"), stdin=subprocess.DEVNULL) for _ in range(c["n"])]
    for p in ps:
        out, err = p.communicate(timeout=300)
        if p.returncode:
            obs.fail("a fresh process failed: %s" % err[-800:])
        a, b, seed = out.split()
        keep(api, obs, "fresh processes", "salt", [salt_of(api, obs, "fresh process", a)])
        keep(api, obs, "fresh processes", "lot", [salt_of(api, obs, "fresh process", b, 100000, 0)])
        keep(api, obs, "fresh processes", "seed", [bytes.fromhex(seed)])
        obs.count("values compared across processes", 3)


class Feed:
    """a chosen OS random source: a fixed stream with one bit flipped"""

    def __init__(self, key, flip=None, put=None):
        self.rng = random.Random(key)
        self.flip, self.pos, self.put = flip, 0, put

    def __call__(self, n):
        b = bytearray(self.rng.randbytes(n))
        for at, v in (self.put or {}).items():
            if self.pos <= at < self.pos + n:
                b[at - self.pos] = v
        if self.flip is not None and self.pos <= self.flip // 8 < self.pos + n:
            b[self.flip // 8 - self.pos] ^= 1 << self.flip % 8
        self.pos += n
        return bytes(b)


def do_feed(c, rng, api, obs):
    """When the OS source delivers chosen bytes, all of the value's bits have to come from them."""
    for kind, size in (("salt", 8), ("lot", 4), ("seed", 24)):
        def once(flip):
            OS["feed"] = Feed(c["seed"], flip)
            try:
                return draw(kind, random.Random(3), api, obs, "chosen randomness"), OS["feed"].pos
            finally:
                OS["feed"] = None
        (a, used), (b, used2) = once(None), once(None)
        if not used or a != b or used != used2 or used > 64:
            obs.count("chosen randomness: not a function of this call's draw, skipped")
            continue
        seen, matter = {a}, 0
        for bit in range(used * 8):
            v, _ = once(bit)
            if v != a:
                matter += 1
            seen.add(v)
        obs.count("draw bits found to matter", matter)
        if matter < size * 8:
            obs.fail("only %d bits of the %d bytes drawn from the OS influence the %d-byte %s" % (matter, used, size, "seed" if kind == "seed" else "salt"))
        if len(seen) < size * 8 + 1:
            obs.fail("flipping single bits of the OS randomness gives only %d different values of a %d-byte %s" % (len(seen), size, "seed" if kind == "seed" else "salt"))
        # every value of one byte, and of two, has to be as good as any other: none mapped onto another, none thrown away
        at = rng.randrange(used)
        rest = {a2: rng.choice([0, 0, 10, 32, 255]) for a2 in rng.sample(range(used), min(used, 2))} if rng.random() < 0.5 else {}

        def byte(v):
            OS["feed"] = Feed(c["seed"], None, {**rest, at: v})
            try:
                return draw(kind, random.Random(3), api, obs, "chosen randomness"), OS["feed"].pos
            finally:
                OS["feed"] = None
        vs = sorted(range(256) if api.tier == "thorough" or kind == "salt" else set(rng.sample(range(256), 64)) | {0, 10, 32, 255})
        got = [byte(v) for v in vs]
        different, asked = len({v for v, _ in got}), {u for _, u in got}
        if different > 1:                       # this byte is used at all
            obs.count("byte values tried at one position", len(got))
            if different < len(vs) or asked != {used}:
                obs.fail("%d values of byte %d of the OS randomness give %d different %ss (%s bytes drawn, normally %d): some values are mapped onto others or thrown away" %
                         (len(vs), at, different, kind, sorted(asked), used))


def do_arguments(c, rng, api, obs):
    """Whatever the other arguments are: the same call again and again, values differ and each is drawn from the OS."""
    sizes, seen = dict(salt=8, lot=4, seed=24), dict(salt=[], lot=[], seed=[])
    state = random.getstate()
    try:
        with Frozen():
            for i in range(c["n"]):
                kind = ("salt", "lot", "seed")[i % 3]
                args = any_arguments(kind, rng, api)
                values, drawn = [], []
                for _ in range(3):
                    random.seed(99)
                    before, device = OS["bytes"], DEVICE["opens"]
                    values.append(draw(kind, rng, api, obs, "the same call again", args=args))
                    drawn.append(OS["bytes"] - before if DEVICE["opens"] == device else 1 << 20)
                obs.count("arguments repeated")
                if len(set(values)) < (3 if kind != "lot" else 2):
                    obs.fail("the same call, made three times, used the %ss %s (arguments %r)" % ("seed" if kind == "seed" else "salt", [v.hex() for v in values], args))
                keep(api, obs, "calls with various arguments", kind, values)
                seen[kind].append((max(drawn), args))
    finally:
        random.setstate(state)
    for kind, calls in seen.items():
        full = [d >= sizes[kind] for d, _ in calls]
        obs.count("draws counted per call", len(calls))
        if sum(full) > 0.6 * len(full) and not all(full):          # drawn by each call, as a rule
            d, args = min(calls, key=lambda x: x[0])
            obs.fail("a %s of %d bytes was made from %d bytes of OS randomness (arguments %r)" % ("seed" if kind == "seed" else "salt", sizes[kind], d, args))


def do_fail(c, rng, api, obs):
    """When the OS source fails, no weaker value may take its place."""
    for kind in ("salt", "lot", "seed"):
        for exc in (NotImplementedError, OSError, BlockingIOError):
            before, device = OS["draws"], DEVICE["opens"]
            OS["fail"] = exc
            try:
                if kind == "salt":
                    got = obs.call(api.BIP38.intermediate_code, PW)
                elif kind == "lot":
                    got = obs.call(api.BIP38.intermediate_code, PW, 100000, 1)
                else:
                    got = obs.call(api.instance("Bitcoin", "mainnet").create_new_encrypted_wif, fixed_inter(api))
            finally:
                OS["fail"] = None
            if OS["draws"] > before:
                obs.count("failing random source observed")
                if got[1] is None and DEVICE["opens"] == device:
                    obs.fail("the OS random source failed with %s, yet a %s was made up: %r" % (exc.__name__, kind, got[0]))


def do_given(c, rng, api, obs):
    special = [bytes(8), b"\xff" * 8, b"\0" * 7 + b"\1", b"\1" + bytes(7), bytes(4) + b"\xff" * 4, b"\xff" * 4 + bytes(4), b"None" * 2, b" " * 8, b"00000000"]
    for i in range(c["n"]):
        lot, seq = gen.lotseq(rng)
        salt = gen.salt(rng, 8 if lot is None else rng.choice([4, 8]))
        if i < len(special):
            salt = special[i] if lot is None or rng.random() < 0.5 else special[i][:4]
        form = gen.data_form(rng, salt)
        got = obs.call(api.BIP38.intermediate_code, PW, lot, seq, gen.unform(form))
        if got[1] is not None:
            obs.fail("intermediate_code with owner salt %s raised %r" % (salt.hex(), got[1]))
        v = salt_of(api, obs, "given salt", got[0], lot, seq)
        if v != salt[:len(v)]:
            obs.fail("owner salt %s was given (%s), the code carries %s" % (salt.hex(), list(form)[0], v.hex()))
        obs.count("given salts found in the code")
        seed = special[i] * 3 if i < len(special) else gen.seed24(rng)
        form = gen.data_form(rng, seed)
        comp = rng.random() < 0.5
        inter = fixed_inter(api, rng.randrange(4))
        got = obs.call(api.instance("Bitcoin", "mainnet").create_new_encrypted_wif, inter, "wif-compressed" if comp else "wif", gen.unform(form))
        want = ref.create(inter, comp, seed, api.golden["Bitcoin"]["mainnet"][1], api.kdf)[0]
        obs.equal("create_new_encrypted_wif with seed %s given as %s" % (seed.hex(), list(form)[0]), got, want)
        obs.count("given seeds found in the result")
        obs.nontrivial(("given", salt, seed))


# ------------------------------------------------------------------ statistics over all values of a worker
def rank(rows):
    basis = {}
    for r in rows:
        while r:
            h = r.bit_length()
            if h not in basis:
                basis[h] = r
                break
            r ^= basis[h]
    return len(basis)


def statistics(obs, kind, vals):
    n, bits = len(vals), len(vals[0]) * 8
    ints = [int.from_bytes(v, "big") for v in vals]
    name = "seeds" if kind == "seed" else "salts"
    if n >= bits + 64:
        r = rank([x ^ ints[0] for x in ints[1:]])
        obs.count("statistical tests")
        if r < bits:
            obs.fail("%d default %s of %d bits span only %d dimensions: some bits are fixed or depend linearly on others" % (n, name, bits, r))
    cols = []
    for b in range(bits):
        col = 0
        for i, x in enumerate(ints):
            col |= (x >> b & 1) << i
        cols.append(col)
    lim = 7.5 * n ** 0.5

    def z(x, m, what):
        obs.count("statistical tests")
        if abs(2 * x.bit_count() - m) > lim:
            obs.fail("default %s are not uniform: %s in %d of %d" % (name, what, x.bit_count(), m))
    mask = (1 << n - 1) - 1
    for i in range(bits):
        z(cols[i], n, "bit %d is set" % i)
        z((cols[i] ^ cols[i] >> 1) & mask, n - 1, "bit %d differs from the previous value's" % i)
        for j in range(i):
            z(cols[i] ^ cols[j], n, "bits %d and %d differ" % (i, j))
    obs.count("values in statistical tests", n)


def finish(api, obs):
    if api.phase.name != "values":
        return
    for kind, vals in api.drawn.items():
        statistics(obs, kind, vals)
