"""C26 - every call ends, does bounded work and leaves nothing behind."""
import atexit
import builtins
import codecs
import contextvars
import copyreg
import decimal
import faulthandler
import gc
import locale
import logging
import multiprocessing.process
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import types
import warnings

from lib import gen, kdf, ops, ref
from lib.fw import Phase, short

PROP = "C26"
LEVEL = "exploration"
RULE = ("one case = a batch of operations (growth, residue, settings) or one operation on a very long or very malformed argument (work); memory blocks, threads, descriptors, process-wide settings and every object "
        "reachable from the package's modules and the instances are compared before and after, key derivations and CPU time are counted; distinct = distinct (operation, arguments)")
ASSUMPTIONS = ["memory held by a C library outside Python's allocator is only seen as resident size",
               "something stays referred to when it can be reached from the package's modules, the used instances or the running thread's locals through objects the garbage collector knows",
               "a bounded cache of public data fills within the warm-up of the growth phase"]
NEED = ("segments measured", "operations measured", "objects walked", "secrets looked for", "settings compared", "key derivations counted", "long arguments judged", "refused", "value", "default salt or seed",
        "monitor self-test: growth", "monitor self-test: residue", "monitor self-test: settings")
CPU_LIMIT = 120.0


def phases(tier):
    q = tier == "quick"
    return [Phase("growth", "stub", 4, kinds=2 if q else 8, per=60 if q else 300),
            Phase("residue and settings", "stub", 8, n=6 if q else 150),
            Phase("key derivations", "stub", 2, n=25 if q else 800, count=True),
            Phase("long arguments", "stub", 6, long=1 if q else 4),
            Phase("residue, real scrypt", "real", 2, n=1 if q else 4)]


OPS = ("encrypt", "decrypt", "decrypt-ec", "create", "confirm", "intermediate", "low")
LONG = ("passphrase encrypt", "passphrase intermediate", "passphrase decrypt", "passphrase confirm", "string decrypt", "string encrypt", "string create", "string confirm", "string wif", "string address", "b58 decode",
        "b58 ones", "b58 encode", "b58 zeros", "b58 check", "hash", "fallback hash", "nearly right", "hex", "integer", "salt", "seed", "key", "point", "network", "marks", "lot")


def cases(phase, rng, shard, nshards, tier, api):
    if phase.name == "growth":
        kinds = list(OPS) + ["mixed", "failing", "defaults"]
        for i in range(phase.opts["kinds"] * nshards + 2):
            if i % nshards == shard:
                yield dict(mode="growth", seed=rng.randrange(1 << 40), kind=kinds[i % len(kinds)], per=phase.opts["per"])
    elif phase.name == "long arguments":
        i = 0
        for _ in range(phase.opts["long"]):
            for what in LONG:
                if i % nshards == shard:
                    yield dict(mode="long", seed=rng.randrange(1 << 40), what=what)
                i += 1
    elif phase.opts.get("count"):
        for _ in range(phase.opts["n"]):
            yield dict(mode="count", seed=rng.randrange(1 << 40))
    else:
        for _ in range(phase.opts["n"]):
            yield dict(mode="residue", seed=rng.randrange(1 << 40), n=12 if api.kdf_mode == "stub" else 3)


def run(c, api, obs):
    if not getattr(api, "tested26", None):
        api.tested26 = True
        selftest(api, obs)
    dict(growth=growth, residue=residue, count=count, long=long_)[c["mode"]](c, api, obs)


def default_plan(rng, api, pw):
    """an operation that has to draw a salt or a seed of its own"""
    lot = {} if rng.random() < 0.5 else dict(lot=rng.randrange(100000, 1000000), sequence=rng.randrange(4096))
    if rng.random() < 0.5:
        return dict(call=("intermediate_code", (pw,), lot), want=None, refuse=None)
    salt = rng.randbytes(8)
    inter = ref.intermediate(pw, salt, lot.get("lot"), lot.get("sequence"), api.kdf)[0]
    return dict(call=("create_new_encrypted_wif", (inter, rng.choice(["wif", "wif-compressed"])), {}), want=None, refuse=None)


def fresh(rng, api, kind, low=0.2):
    """an operation on arguments of its own"""
    if kind == "defaults" or kind == "mixed" and rng.random() < 0.2:
        return default_plan(rng, api, gen.passphrase(rng)[0] + "%x" % rng.getrandbits(48))
    while True:
        pool = ops.Pool(rng, api)
        pool.pws = [gen.passphrase(rng)[0] + "%x" % rng.getrandbits(48) for _ in range(2)]
        o = pool.low(api) if kind == "low" else pool.op(api, low if kind in ("mixed", "failing") else 0)
        if kind in OPS and o["op"] != kind:
            continue
        if kind == "failing" and not o.get("bad"):
            continue
        return ops.plan(o, api)


def anew(v):
    """an equal object that nobody else refers to"""
    if isinstance(v, str) and len(v) > 1:
        return "".join([v[:1], v[1:]])
    if isinstance(v, bytes) and len(v) > 1:
        return b"".join([v[:1], v[1:]])
    return v


def attempt(inst, p):
    name, a, k = p["call"]
    q = dict(p, call=(name, tuple(map(anew, a)), {n: anew(v) for n, v in k.items()}))
    try:
        return ops.invoke(inst, q), None
    except Exception as e:
        return None, e.__class__


# ------------------------------------------------------------------ growth
def measure(batches, do):
    """-> growth in memory blocks of each batch, measured by Python's allocator after a full collection"""
    out = []
    gc.collect()
    gc.collect()
    before = sys.getallocatedblocks()
    for batch in batches:
        for p in batch:
            do(p)
        gc.collect()
        gc.collect()
        now = sys.getallocatedblocks()
        out.append(now - before)
        before = now
    return out


def growing(deltas, n):
    """every segment grew by something like a block per operation"""
    return min(deltas) >= 0.45 * n


def growth(c, api, obs):
    rng = random.Random(c["seed"])
    per = c["per"]
    plans = []
    for _ in range(per * 7):
        p = fresh(rng, api, c["kind"])
        plans.append(p)
    inst = api.instance("Bitcoin", "mainnet", fresh=True)
    # a plan is judged by the model on an instance of its own coin elsewhere; here it only has to run
    for p in plans:
        p["call"][2].pop("network", None)
    batches = [plans[i * per:(i + 1) * per] for i in range(7)]

    def do(p):
        r, e = attempt(inst, p)
        obs.features["value" if e is None else "refused"] += 1
    for n in (0, 1):
        threads, fds = threading.active_count(), len(os.listdir("/proc/self/fd"))
        deltas = measure(batches[:3], do)                   # warm-up
        deltas = measure(batches[3:], do)
        obs.count("segments measured", len(deltas))
        obs.count("operations measured", per * len(deltas))
        if threading.active_count() > threads:
            obs.fail("%s operations left %d threads behind" % (c["kind"], threading.active_count() - threads))
        now = len(os.listdir("/proc/self/fd"))
        if now > fds + 2:
            obs.fail("%s operations left %d file descriptors open" % (c["kind"], now - fds))
        if not growing(deltas, per):
            break
        if n == 0:                                          # once more, on other arguments, before it counts
            plans = [fresh(rng, api, c["kind"]) for _ in range(per * 7)]
            for p in plans:
                p["call"][2].pop("network", None)
            batches = [plans[i * per:(i + 1) * per] for i in range(7)]
    else:
        obs.fail("memory grows with every call: segments of %d %s operations on new arguments left %s blocks behind" % (per, c["kind"], deltas))
    obs.nontrivial((c["kind"], c["seed"]))


# ------------------------------------------------------------------ residue
def roots(extra):
    out = [m for n, m in list(sys.modules.items()) if (n == "bip38" or n.startswith("bip38.")) and isinstance(m, types.ModuleType)]
    return [m.__dict__ for m in out] + list(extra)


def elsewhere():
    """(module, attribute) -> value for all modules that are neither the package's nor the harness's"""
    out = {}
    for n, m in list(sys.modules.items()):
        if isinstance(m, types.ModuleType) and not n.startswith(("bip38", "lib.", "checks.", "__main__")) and n not in ("lib", "checks"):
            for a, v in list(vars(m).items()):
                out[n, a] = v
    return out


def planted(was):
    """what has appeared in other modules and in the context since"""
    now = elsewhere()
    return [v for k, v in now.items() if (k not in was or was[k] is not v) and not isinstance(v, types.ModuleType)] + list(contextvars.copy_context().values())


def walk(start, limit=400000):
    """every object reachable from start through the garbage collector's eyes, staying inside the package: other modules, their
    functions and classes are not entered"""
    mods = {id(m.__dict__) for n, m in list(sys.modules.items()) if isinstance(m, types.ModuleType) and not (n == "bip38" or n.startswith("bip38."))}
    seen = {}
    todo = list(start)
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in mods or isinstance(o, (types.ModuleType, types.FrameType)):
            continue
        if isinstance(o, (types.FunctionType, type)) and not str(getattr(o, "__module__", "")).startswith(("bip38", "six")) and not isinstance(o, type(None)):
            continue
        seen[id(o)] = o
        if len(seen) > limit:
            break
        if not isinstance(o, (str, bytes, int, float)):
            todo.extend(gc.get_referents(o))
            if isinstance(o, threading.local):
                todo.append(dict(o.__dict__))
    return seen


def holds(o, texts, numbers):
    if isinstance(o, str):
        return any(t in o for t in texts if isinstance(t, str))
    if isinstance(o, (bytes, bytearray)):
        return any(t in o for t in texts if isinstance(t, bytes))
    if isinstance(o, int) and not isinstance(o, bool):
        return o in numbers
    return False


def secrets_of(p, c, extra=()):
    """what of an operation's arguments and results has to be gone: -> (texts, numbers)"""
    texts, numbers = set(), set()

    def key(b):
        if len(set(b)) < 16 or min(int.from_bytes(b, "big"), ref.N - int.from_bytes(b, "big")) < 1 << 80:
            return                                          # boundary values and patterns are in any program
        texts.update((b, b.hex(), b.hex().upper()))
        numbers.add(int.from_bytes(b, "big"))
    if c.get("priv") and c["op"] != "intermediate":
        key(bytes.fromhex(c["priv"]))
    want = p["want"]
    if isinstance(want, dict) and "wif" in want:
        texts.add(want["wif"])
        key(bytes.fromhex(want["private_key"]))
    elif isinstance(want, str) and p["call"][0] == "decrypt":
        texts.add(want)
    if p["call"][0] == "encrypt":
        texts.add(p["call"][1][0])
    return texts, numbers


def settings():
    out = dict(rnd=hash(random.getstate()), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), prec=decimal.getcontext().prec, rounding=decimal.getcontext().rounding,
               traps=str(decimal.getcontext().traps), locale=locale.setlocale(locale.LC_ALL), hook=id(sys.excepthook), disp=id(sys.displayhook), thook=id(threading.excepthook), path=list(sys.path),
               argv=list(sys.argv), out=id(sys.stdout), err=id(sys.stderr), inp=id(sys.stdin), trace=id(sys.gettrace()), profile=id(sys.getprofile()), filters=len(warnings.filters), cwd=os.getcwd(), gc=gc.isenabled(), thr=gc.get_threshold(),
               cb=len(gc.callbacks), atexit=atexit._ncallbacks(), digits=sys.get_int_max_str_digits(), env=dict(os.environ), bi=frozenset(vars(builtins)), bio=id(builtins.open), bip=id(builtins.print),
               finders=len(sys.meta_path), hooks=len(sys.path_hooks), threads=threading.active_count(), stack=threading.stack_size(), maxunicode=sys.maxunicode, ticks=None)
    mask = os.umask(0o22)
    os.umask(mask)
    out["umask"] = mask
    out["signals"] = [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGPIPE, signal.SIGCHLD)]
    out["mask"] = sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))
    out["timers"] = [tuple(x > 0 for x in signal.getitimer(t)) for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    out["wakeup"] = _wakeup()
    out["limits"] = [resource.getrlimit(getattr(resource, n)) for n in sorted(dir(resource)) if n.startswith("RLIMIT_")]
    out["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    out["cpus"] = sorted(os.sched_getaffinity(0))
    out["group"] = (os.getpgrp(), os.getsid(0), os.getuid(), os.geteuid(), os.getgid(), os.getegid(), os.getgroups())
    out["logging"] = (logging.root.manager.disable, logging.root.level, len(logging.root.handlers), logging.raiseExceptions, id(logging.getLoggerClass()), id(logging.getLogRecordFactory()), logging.lastResort is None)
    out["sockets"] = socket.getdefaulttimeout()
    out["copyreg"] = (len(copyreg.dispatch_table), len(copyreg._extension_registry))
    out["codec errors"] = [id(codecs.lookup_error(n)) for n in ("strict", "ignore", "replace", "backslashreplace", "surrogateescape", "surrogatepass", "xmlcharrefreplace", "namereplace")]
    out["codecs"] = [_codec(n) for n in ("utf-8", "ascii", "latin-1", "hex", "bip38", "base58", "b58", "base-58", "nfc")]
    out["faulthandler"] = faulthandler.is_enabled()
    out["tracemalloc"] = tracemalloc.is_tracing()
    out["tools"] = [sys.monitoring.get_tool(i) for i in range(6)]
    out["more hooks"] = [id(getattr(sys, n)) for n in ("unraisablehook", "breakpointhook", "__excepthook__", "__stdout__", "__stderr__", "__stdin__") if hasattr(sys, n)] + [sys.get_asyncgen_hooks() == (None, None), sys.get_coroutine_origin_tracking_depth(),
                         sys.dont_write_bytecode, sys.pycache_prefix, threading.gettrace() is None, threading.getprofile() is None, hasattr(sys, "ps1"), hasattr(sys, "tracebacklimit"), gc.get_debug(), gc.get_freeze_count()]
    out["warnings"] = ([f[:1] + f[2:3] for f in warnings.filters], id(warnings.showwarning), id(warnings.formatwarning))
    out["open files"] = sorted(n for n in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + n))
    out["children"] = len(multiprocessing.process._children)
    out["stream settings"] = [(f.encoding, f.errors, f.line_buffering, f.write_through) for f in (sys.stdout, sys.stderr) if hasattr(f, "write_through")]
    return out


def _wakeup():
    if threading.current_thread() is not threading.main_thread():
        return None
    fd = signal.set_wakeup_fd(-1)
    if fd != -1:
        signal.set_wakeup_fd(fd)
    return fd


def _codec(name):
    try:
        return codecs.lookup(name).name
    except LookupError:
        return None


def differing(a, b):
    return ["%s: %s -> %s" % (k, short(a[k], 80), short(b[k], 80)) for k in a if a[k] != b[k]]


def residue(c, api, obs):
    rng = random.Random(c["seed"])
    insts = {}
    texts, numbers = set(), set()
    did = []
    others = elsewhere()
    before = settings()
    for i in range(c["n"]):
        pool = ops.Pool(rng, api)
        token = "%020x" % rng.getrandbits(80)
        pool.pws = [gen.passphrase(rng, rng.choice(["ascii", "composed", "astral"]))[0] + token + "x"]
        o = pool.op(api, 0.25)
        p = ops.plan(o, api)
        key = (o["coin"], o["inst"])
        if key not in insts:
            insts[key] = api.instance(*key, fresh=True)
        t, n = secrets_of(p, o)
        if o["pw"]:
            t |= {token, token.encode()}
        texts |= t
        numbers |= n
        got = obs.call(ops.invoke, insts[key], p)
        obs.feature("value" if got[1] is None else "refused")
        did.append(p["call"][0])
        obs.nontrivial(sorted(o.items(), key=str))
        if rng.random() < 0.4:
            p = default_plan(rng, api, o["pw"] or token)
            obs.call(ops.invoke, insts[key], p)
            did.append(p["call"][0] + " with defaults")
            obs.feature("default salt or seed")
        del o, p, got, pool, t, n
    after = settings()
    obs.count("settings compared", len(after))
    bad = differing(before, after)
    if bad:
        obs.fail("%s changed settings of the process: %s" % (", ".join(did), "; ".join(bad)))
    seen = walk(roots(list(insts.values()) + planted(others)))
    obs.count("objects walked", len(seen))
    obs.count("secrets looked for", len(texts))
    mine = {id(texts), id(numbers)}
    for o in list(seen.values()):
        if id(o) not in mine and holds(o, texts, numbers):
            refs = [type(r).__name__ for r in gc.get_referrers(o) if id(r) in seen]
            obs.fail("after %s the package still holds %s (in %s)" % (", ".join(did), short(o, 100), refs[:3]))


# ------------------------------------------------------------------ key derivations
MOST = {"encrypt": {(16384, 8, 8): 1}, "decrypt": {(16384, 8, 8): 1}, "decrypt-ec": {(16384, 8, 8): 1, (1024, 1, 1): 1}, "create": {(1024, 1, 1): 1}, "confirm": {(16384, 8, 8): 1, (1024, 1, 1): 1},
        "intermediate": {(16384, 8, 8): 1}, "low": {}}


def count(c, api, obs):
    rng = random.Random(c["seed"])
    pool = ops.Pool(rng, api)
    for _ in range(10):
        o = pool.op(api, 0.1)
        near = None
        if o["op"] in ("decrypt", "decrypt-ec", "confirm") and rng.random() < 0.6:      # nearly the right passphrase
            near = rng.choice(gen.near_misses(rng, o["pw"]))
            o["bad"] = None
        p = ops.plan(o, api)
        if near is not None:
            name, a, k = p["call"]
            p = dict(p, call=(name, tuple(near[1] if v == o["pw"] else v for v in a), k), want=None)
            obs.feature("near miss:" + near[0])
        inst = api.instance(o["coin"], o["inst"])
        was = dict(kdf.PARAMS)
        got = obs.call(ops.invoke, inst, p)
        used = {k: v - was.get(k, 0) for k, v in kdf.PARAMS.items() if v != was.get(k, 0)}
        obs.count("key derivations counted", sum(used.values()))
        most = MOST[o["op"]]
        for k, v in used.items():
            if v > most.get(k, 0):
                obs.fail("%s derived %d keys with N=%s r=%s p=%s, the standard needs %d" % ((p["call"][0], v) + k + (most.get(k, 0),)))
        obs.feature("value" if got[1] is None else "refused")
        obs.nontrivial(sorted(o.items(), key=str))


# ------------------------------------------------------------------ long arguments
def long_(c, api, obs):
    rng = random.Random(c["seed"])
    what = c["what"]
    inst = api.instance("Bitcoin", "mainnet")
    A = ref.BTC_ALPHABET
    priv = gen.key(rng)
    wp, ap = api.golden["Bitcoin"]["mainnet"]
    wif = ref.wif_encode(priv, wp, True)
    R = api.REFUSED
    t0 = time.process_time()
    limit = 20.0

    def text(n):
        return rng.choice(A[1:]) + "".join(rng.choices(A, k=n - 1))
    if what == "marks":                                     # very many combining marks: normalisation must not be quadratic
        pw = "a" + "".join(rng.choices("\u0301\u0323\u0315\u031b\u0345", k=3000)) + "e\u0301"
        obs.equal(what, obs.call(inst.encrypt, wif, pw), ref.encrypt(priv, True, ap, pw, api.kdf)[0])
    elif what.startswith("passphrase"):
        n = rng.choice([10000, 100000, 300000])
        pw = "".join(rng.choices("ab \u00e9e\u0301\U0001f600\u4e2d", k=n))
        salt = rng.randbytes(8)
        if what.endswith("encrypt"):
            obs.equal(what, obs.call(inst.encrypt, wif, pw), ref.encrypt(priv, True, ap, pw, api.kdf)[0])
        elif what.endswith("intermediate"):
            obs.equal(what, obs.call(inst.intermediate_code, pw, owner_salt=salt), ref.intermediate(pw, salt, None, None, api.kdf)[0])
        elif what.endswith("decrypt"):
            enc = ref.encrypt(priv, True, ap, pw, api.kdf)[0]
            obs.equal(what, obs.call(inst.decrypt, enc, pw), wif)
            obs.refused(what + " (one character more)", obs.call(inst.decrypt, enc, pw + "x"), api.exc.PassphraseError)
        else:
            inter = ref.intermediate(pw, salt, None, None, api.kdf)[0]
            made = inst.create_new_encrypted_wif(inter)
            obs.equal(what, obs.call(inst.confirm_code, pw, made["confirmation_code"]), made["address"])
            obs.refused(what + " (one character less)", obs.call(inst.confirm_code, pw[:-1], made["confirmation_code"]), api.exc.PassphraseError)
    elif what.startswith("string"):
        for n in (1000, 5000, 20000):
            t = rng.choice([text(n), "1" * n, "6P" * (n // 2), A[-1] * n, "cfrm38" + text(n), "passphrase" + text(n), "0" * n, " " * n])
            got = dict(decrypt=lambda: obs.call(inst.decrypt, t, "x"), encrypt=lambda: obs.call(inst.encrypt, t, "x"), create=lambda: obs.call(inst.create_new_encrypted_wif, t),
                       confirm=lambda: obs.call(inst.confirm_code, "x", t), wif=lambda: obs.call(api.wif.decode_wif, t, wp), address=lambda: obs.call(api.addr.decode, t))[what.split()[1]]()
            obs.refused("%s (%d characters)" % (what, n), got, R)
    elif what == "nearly right":                            # texts on which a backtracking match explores everything
        enc = ref.encrypt(priv, True, ap, "x", api.kdf)[0]
        inter = ref.intermediate("x", rng.randbytes(8), None, None, api.kdf)[0]
        bad = rng.choice(["0", "O", "I", "l", "!", " ", "\n", "-", "_", "\u00e9"])
        for t in (enc[:-1] + bad, enc + bad, inter + bad, wif[:-1] + bad, text(60) + bad, "1" * 60 + bad, "1a" * 30 + bad, bad + text(60), text(30) + bad + text(30)):
            for f, a in ((inst.decrypt, (t, "x")), (inst.encrypt, (t, "x")), (inst.create_new_encrypted_wif, (t,)), (inst.confirm_code, ("x", t)), (api.wif.decode_wif, (t, wp)), (api.addr.decode, (t,)),
                         (api.b58.decode, (t,)), (api.b58.check_decode, (t,))):
                if t not in (enc, inter, wif):
                    obs.refused("%s of a text with one foreign character (%r)" % (f.__name__, t), obs.call(f, *a), R)
        for unit in ("a", "A", "1", " ", "aA", "a ", "a1", "word ", ".", "-", "\u00e9", "e\u0301", "\n", "\t", "0x", "\\", "a,"):
            for end in ("", "!", "\0x", "\n", "a", "0"):
                pw = unit * 45 + end
                obs.equal("a passphrase of %r and %r" % (unit * 2 + "...", end), obs.call(inst.encrypt, wif, pw), ref.encrypt(priv, True, ap, pw, api.kdf)[0]) if api.kdf_mode == "stub" else None
        for t in ("a" * 49 + "z", "ab" * 40 + "g", "0" * 60 + "x", "0x" + "0" * 46 + "-", "00 " * 30 + "z", "f" * 47):
            obs.refused("a salt %r" % t, obs.call(inst.intermediate_code, "x", owner_salt=t), R)
            obs.refused("a seed %r" % t, obs.call(inst.create_new_encrypted_wif, inter, "wif", t), R)
        for t in ("wif-" * 40, "wif" * 40 + "!", "compressed-" * 20 + "!", "w" * 60 + "!"):
            obs.refused("a WIF type %r" % t, obs.call(inst.create_new_encrypted_wif, inter, t), R)
            obs.refused("a network %r" % t, obs.call(inst.encrypt, wif, "x", network=t), R)
    elif what == "b58 decode":
        for n in (3000, 15000):
            t = text(n)
            obs.equal(what, obs.call(api.b58.decode, t), b58_long(t))
    elif what == "b58 ones":
        obs.equal(what, obs.call(api.b58.decode, "1" * 20000), bytes(20000))
        obs.equal(what, obs.call(api.b58.decode, "1" * 5000 + "2"), bytes(5000) + b"\1")
    elif what == "b58 encode":
        for n in (1500, 6000):
            b = rng.randbytes(n)
            got = obs.call(api.b58.encode, b)
            if got[1] is not None or b58_long(got[0]) != b:
                obs.fail("encoding %d bytes: %s" % (n, short(got)))
    elif what == "b58 zeros":
        obs.equal(what, obs.call(api.b58.encode, bytes(6000)), "1" * 6000)
    elif what == "b58 check":
        b = rng.randbytes(4000)
        t = obs.call(api.b58.check_encode, b)
        obs.equal(what, (None if t[0] is None else b58_long(t[0]), t[1]), b + ref.sha256d(b)[:4])
        obs.equal(what, obs.call(api.b58.check_decode, t[0]), b)
    elif what == "hash":
        b = rng.randbytes(rng.choice([1 << 20, 3 << 20, (1 << 20) + 55]))
        for name, f in (("sha256", ref.sha256), ("double_sha256", ref.sha256d)):
            obs.equal(what, obs.call(getattr(api.crypto, name), b), f(b))
        obs.equal(what, obs.call(api.crypto.sha256, b.hex()), ref.sha256(b))
    elif what == "fallback hash":
        b = rng.randbytes(rng.choice([100000, 131072 - 9, 200001]))
        want = ref.ripemd160(b)
        obs.equal(what, obs.call(api.crypto.ripemd160, b), want)
        try:
            from bip38.libs.ripemd160 import ripemd160 as f
        except ImportError:
            f = None
        if f is not None:
            obs.equal(what, obs.call(f, b), want)
    elif what == "hex":
        b = rng.randbytes(1 << 20)
        obs.equal(what, obs.call(api.utils.bytes_to_string, b), b.hex())
        obs.equal(what, obs.call(api.utils.get_bytes, b.hex()), b)
        obs.equal(what, obs.call(api.utils.bytes_reverse, b), b[::-1])
    elif what == "integer":
        b = b"\x7f" + rng.randbytes(1 << 18)
        v = int.from_bytes(b, "big")
        obs.equal(what, obs.call(api.utils.integer_to_bytes, v), b)
        obs.equal(what, obs.call(api.utils.bytes_to_integer, b), v)
        obs.equal(what, obs.call(api.utils.integer_to_bytes, v, len(b) + 70000), bytes(70000) + b)
    elif what == "salt":
        for s in ("00" * 50000, bytes(50000), "0" * 99999, "zz" * 50000):
            obs.refused("a salt of %d" % len(s), obs.call(inst.intermediate_code, "x", owner_salt=s), R)
    elif what == "seed":
        inter = ref.intermediate("x", rng.randbytes(8), None, None, api.kdf)[0]
        for s in ("00" * 50000, bytes(50000), "0" * 99999, "zz" * 50000):
            obs.refused("a seed of %d" % len(s), obs.call(inst.create_new_encrypted_wif, inter, "wif", s), R)
    elif what == "key":
        for s in (bytes(50000), b"\1" * 33333, b"\2" + bytes(49999)):
            obs.refused("a key of %d bytes" % len(s), obs.call(api.secp.PrivateKey.from_bytes, s), R)
            obs.refused("a public key of %d bytes" % len(s), obs.call(api.secp.PublicKey.from_bytes, s), R)
            obs.refused("a WIF of a key of %d bytes" % len(s), obs.call(api.wif.encode_wif, s, wp), R)
    elif what == "point":
        k = int.from_bytes(priv, "big") or 1
        big = rng.getrandbits(20000) | 1 << 19999
        P = ref.parse_pub(ref.pubkey(priv, True))
        want = ref.ec_mul(big % ref.N, P)
        got = obs.call(lambda: (lambda q: (q.x(), q.y()))(api.secp.PublicKey.from_bytes(ref.pubkey(priv, True)).point() * big))
        if got[1] is None:
            obs.equal("a scalar of 20000 bits", got, tuple(want))
        else:
            obs.refused("a scalar of 20000 bits", got, R)
    elif what == "network":
        n = "mainnet" * 20000
        obs.refused(what, obs.call(inst.encrypt, wif, "x", network=n), R)
        obs.refused(what, obs.call(api.BIP38, api.coins.Bitcoin, n), R)
    elif what == "lot":
        for v in (10 ** 5000, -10 ** 5000, 1 << 64, 1 << 20):
            obs.refused("a lot of %d bits" % v.bit_length(), obs.call(inst.intermediate_code, "x", lot=v, sequence=1), R)
            obs.refused("a sequence of %d bits" % v.bit_length(), obs.call(inst.intermediate_code, "x", lot=100000, sequence=v), R)
    used = time.process_time() - t0
    obs.count("long arguments judged")
    if used > 60:
        obs.fail("%s: took %.0f s of CPU time" % (what, used))
    obs.nontrivial((what, c["seed"]))


def b58_long(t):
    """quick decoding of long text: divide and conquer"""
    A = ref.BTC_ALPHABET

    def val(s):
        if len(s) <= 50:
            v = 0
            for ch in s:
                v = v * 58 + A.index(ch)
            return v
        h = len(s) // 2
        return val(s[:h]) * 58 ** (len(s) - h) + val(s[h:])
    v = val(t)
    zeros = len(t) - len(t.lstrip("1"))
    return bytes(zeros) + v.to_bytes((v.bit_length() + 7) // 8, "big")


# ------------------------------------------------------------------ the monitors see what they are for
def selftest(api, obs):
    keep = []
    batches = [[0] * 60] * 4
    if growing(measure(batches, lambda p: None), 60):
        raise RuntimeError("growth monitor sees growth where there is none")
    if not growing(measure(batches, lambda p: keep.append(os.urandom(20))), 60):
        raise RuntimeError("growth monitor is blind")
    obs.feature("monitor self-test: growth")
    before = settings()
    old = random.getstate()
    random.random()
    sys.setrecursionlimit(sys.getrecursionlimit() + 1)
    bad = differing(before, settings())
    sys.setrecursionlimit(sys.getrecursionlimit() - 1)
    random.setstate(old)
    if len(bad) != 2 or differing(before, settings()):
        raise RuntimeError("settings monitor: %s" % bad)
    obs.feature("monitor self-test: settings")
    inst = api.instance("Bitcoin", "mainnet", fresh=True)
    for place in (inst.__dict__ if hasattr(inst, "__dict__") else vars(api.mod), vars(api.wif)):
        place["verif_probe"] = {"a": [("x", "abc-secret-probe-1".upper())]}
        hit = [o for o in walk(roots([inst])).values() if holds(o, {"SECRET-PROBE"}, set())]
        del place["verif_probe"]
        if not hit:
            raise RuntimeError("residue monitor is blind")
    was = elsewhere()
    sys.verif_probe = ["abc-secret-probe-3".upper()]
    var = contextvars.ContextVar("verif_probe")
    back = var.set("abc-secret-probe-4".upper())
    hit = [o for o in walk(roots([inst] + planted(was))).values() if holds(o, {"SECRET-PROBE-3", "SECRET-PROBE-4"}, set())]
    var.reset(back)
    del sys.verif_probe
    if len(hit) < 2:
        raise RuntimeError("residue monitor does not see other modules and the context")
    import functools
    f = functools.lru_cache(None)(lambda x: x)
    f("abc-secret-probe-2".upper())
    api.mod.verif_probe = f
    hit = [o for o in walk(roots([inst])).values() if holds(o, {"SECRET-PROBE-2"}, set())]
    del api.mod.verif_probe
    if not hit:
        raise RuntimeError("residue monitor does not see into caches")
    obs.feature("monitor self-test: residue")
