"""C17 - results depend on the arguments only: no history, thread or fault effects."""
import gc
import json
import random
import sys
import threading
import time
import zlib

from lib import gen, kdf, ops, ref, story
from lib.fw import REPO, Phase, Problem, describe
import os

PROP = "C17"
LEVEL = "exploration"
RULE = ("one case = one history: a sequence of operations over a small pool of arguments on shared instances (histories), several threads running such sequences at "
        "once with injected delays and forced switches (schedules), or one operation interrupted at one executed line or KDF call followed by "
        "probe operations (faults); every single outcome is compared with the independent model; "
        "distinct = distinct operation sequences, observed interleavings (hash of the thread order at line events) and (operation, interruption point) pairs")
ASSUMPTIONS = ["the reference model gives the outcome of an operation on its own",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)",
               "thread switches happen where CPython and the injected yields allow them; instruction-level interleavings are sampled, not enumerated"]
NEED = ("operations judged in histories", "operations judged under threads", "thread switches observed at line events", "faults injected at a line", "faults injected in the KDF", "operations run in the middle of another", "failures in a row", "distinct operations on one instance", "coin classes made and dropped",
        "coin tables compared", "results compared with the model")
BASE = os.path.realpath(os.path.join(REPO, "bip38")) + os.sep


def phases(tier):
    q = tier == "quick"
    return [Phase("histories", "stub", 8, n=7 if q else 150, length=120),
            Phase("threads", "stub", 8, n=14 if q else 300),
            Phase("faults", "stub", 8, n=1 if q else 8, rounds=1 if q else 6),
            Phase("preemptions", "stub", 8, n=1, rounds=1 if q else 12),
            Phase("storms", "stub", 8, n=3 if q else 40, failures=40),
            Phase("many", "stub", 8, n=1 if q else 6, distinct=1500 if q else 6000),
            Phase("coin lives", "stub", 8, n=1 if q else 12, lives=60 if q else 200),
            Phase("threads, real scrypt", "real", 2, n=1 if q else 12, real=True)]


def cases(phase, rng, shard, nshards, tier, api):
    if phase.name == "histories":
        for _ in range(phase.opts["n"]):
            yield dict(mode="history", seed=rng.randrange(1 << 40), length=phase.opts["length"])
    elif phase.name.startswith("threads"):
        for i in range(phase.opts["n"]):
            yield dict(mode="threads", seed=rng.randrange(1 << 40), threads=rng.choice([2, 3, 4, 6]) if phase.kdf == "stub" else 4,
                       length=rng.choice([6, 10]) if phase.kdf == "stub" else 3,
                       switch=rng.choice([1e-6, 1e-5, 5e-3]), line_yield=rng.choice([0, 0.01, 0.05, 0.3]), kdf_delay=rng.random() < 0.7,
                       alike=rng.random() < 0.3)
    elif phase.name == "preemptions":
        i = 0
        for rnd in range(phase.opts["rounds"]):
            for op in ("encrypt", "decrypt", "create", "decrypt-ec", "confirm", "intermediate", "low", "low"):
                for part in range(3):
                    if i % nshards == shard:
                        yield dict(mode="preempt", seed=rng.randrange(1 << 40), op=op, part=part, parts=3, near=rng.random() < 0.5)
                    i += 1
    elif phase.name == "storms":
        for _ in range(phase.opts["n"]):
            yield dict(mode="storm", seed=rng.randrange(1 << 40), failures=max(phase.opts["failures"], gen.number(rng, 0, 5, 600, 0, 0.7) + 3), where=rng.choice(["here", "threads", "both"]), alike=rng.random() < 0.5)
    elif phase.name == "coin lives":
        for _ in range(phase.opts["n"]):
            yield dict(mode="lives", seed=rng.randrange(1 << 40), lives=phase.opts["lives"])
    elif phase.name == "many":
        ops_ = ["encrypt", "decrypt", "decrypt-ec", "create", "confirm", "intermediate", None]
        for i in range(phase.opts["n"]):
            yield dict(mode="many", seed=rng.randrange(1 << 40), op=ops_[(shard + i * nshards) % len(ops_)], distinct=max(phase.opts["distinct"], gen.number(rng, 0, 50, 8000, 0, 0.5) * 2 + 3))
    else:
        i = 0
        for rnd in range(phase.opts["rounds"]):
            for op in ("encrypt", "decrypt", "create", "decrypt-ec", "confirm", "intermediate"):
                for part in range(4):
                    if i % nshards == shard:
                        yield dict(mode="faults", seed=rng.randrange(1 << 40), op=op, part=part, parts=4, exc=rng.choice(["base", "memory", "keyboard", "os"]))
                    i += 1


def run(c, api, obs):
    dict(history=history, threads=threads, faults=faults, storm=storm, many=many, preempt=preempt, lives=lives)[c["mode"]](c, api, obs)


# ------------------------------------------------------------------ histories
def history(c, api, obs):
    rng = random.Random(c["seed"])
    pool = ops.Pool(rng, api)
    tables = ops.Tables(api)
    insts = {}
    how = {}
    todo = [pool.op(api, 0.4) for _ in range(c["length"])]
    for i in range(c["length"] // 4):                     # re-execute earlier operations
        todo.insert(rng.randrange(len(todo) // 2, len(todo)), rng.choice(todo[:len(todo) // 2]))
    for o in todo:
        key = (o["coin"], o["inst"])
        if key not in insts or rng.random() < 0.02:
            insts[key] = api.instance(o["coin"], o["inst"], fresh=True)
        p = ops.plan(o, api)
        got = obs.call(ops.invoke, insts[key], p)
        ops.judge(obs, "in a history: ", p, got)
        if p["refuse"]:                                    # the same refusal as the last time
            t = how.setdefault(repr(sorted(o.items(), key=str)), type(got[1]))
            obs.count("refusals compared with earlier ones")
            if t is not type(got[1]):
                obs.fail("in a history: %s was refused with %s and later, for the same arguments, with %s" % (p["call"][0], t.__name__, type(got[1]).__name__))
        obs.count("operations judged in histories")
        obs.feature("operation:" + o.get("fn", o["op"]), "outcome:refused" if p["refuse"] else "outcome:value")
        if isinstance(got[0], dict):                       # a caller may do what it likes with a result
            got[0].clear()
    for (coin, net), inst in insts.items():
        ops.instance_config(inst, api.coin(coin), net, obs, "a history of operations")
    tables.check(obs, "a history of operations")
    obs.nontrivial(("history", [sorted(o.items(), key=str) for o in todo]))


# ------------------------------------------------------------------ threads
class Lines:
    """sys.monitoring LINE events of the code under test in every thread: yields at random, and records
    which thread was running."""

    def __init__(self, seed, prob):
        self.prob = prob
        self.rngs = {}
        self.seed = seed
        self.last = None
        self.switches = 0
        self.hash = 0
        self.events = 0
        self.inside = {}
        self.overlap = 0

    def __call__(self, code, line):
        if not code.co_filename.startswith(BASE):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        self.events += 1
        if self.last != me:
            self.switches += 1
            self.last = me
            self.hash = zlib.crc32(b"%d:%d" % (self.names.get(me, 0), line), self.hash)
        if self.prob:
            r = self.rngs.get(me)
            if r is None:
                r = self.rngs[me] = random.Random("%s/%s" % (self.seed, self.names.get(me, 0)))
            if r.random() < self.prob:
                time.sleep(0)

    def __enter__(self):
        self.names = {}
        mon = sys.monitoring
        mon.use_tool_id(4, "verif-lines")
        mon.register_callback(4, mon.events.LINE, self)
        mon.set_events(4, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(4, 0)
        mon.register_callback(4, mon.events.LINE, None)
        mon.free_tool_id(4)
        mon.restart_events()


def threads(c, api, obs):
    rng = random.Random(c["seed"])
    pool = ops.Pool(rng, api, coins=["Bitcoin", "Litecoin"] if rng.random() < 0.6 else None)
    tables = ops.Tables(api)
    scripts = []
    shared = [pool.op(api, 0.2) for _ in range(c["length"])]
    for t in range(c["threads"]):
        script = [dict(o) for o in shared] if c["alike"] else [pool.op(api, 0.2) for _ in range(c["length"])]
        scripts.append([(o, ops.plan(o, api)) for o in script])
    insts = {}
    for s in scripts:
        for o, p in s:
            insts.setdefault((o["coin"], o["inst"]), None)
    for k in insts:
        insts[k] = api.instance(*k, fresh=True)
    results = [[] for _ in scripts]
    gate = threading.Barrier(len(scripts) + 1)
    lines = Lines(c["seed"], c["line_yield"])
    drng = random.Random(c["seed"] ^ 0x5A5A)

    def delay():
        time.sleep(drng.choice([0, 0, 0.0002, 0.001, 0.003]))

    def body(n):
        lines.names[threading.get_ident()] = n
        gate.wait()
        for o, p in scripts[n]:
            t0 = time.monotonic_ns()
            try:
                got = (ops.invoke(insts[o["coin"], o["inst"]], p), None)
            except BaseException as e:
                got = (None, e)
            results[n].append((t0, time.monotonic_ns(), got))
    ts = [threading.Thread(target=body, args=(n,), daemon=True) for n in range(len(scripts))]
    old = sys.getswitchinterval()
    if c["kdf_delay"]:
        kdf.STATE["delay"] = delay
    try:
        with lines:
            sys.setswitchinterval(c["switch"])
            for t in ts:
                t.start()
            gate.wait()
            for t in ts:
                while t.is_alive():
                    t.join(0.2)
    finally:
        sys.setswitchinterval(old)
        kdf.STATE["delay"] = None
    spans = sorted((a, b) for r in results for a, b, _ in r)
    obs.count("overlapping pairs of operations", sum(1 for i in range(len(spans) - 1) if spans[i + 1][0] < spans[i][1]))
    obs.count("thread switches observed at line events", max(0, lines.switches - 1))
    obs.count("line events", lines.events)
    for n, s in enumerate(scripts):
        for (o, p), (_, _, got) in zip(s, results[n]):
            obs.count("operations judged under threads")
            obs.count("calls")
            ops.judge(obs, "thread %d of %d: " % (n, len(scripts)), p, got)
    for (coin, net), inst in insts.items():
        ops.instance_config(inst, api.coin(coin), net, obs, "concurrent operations")
    tables.check(obs, "concurrent operations")
    obs.nontrivial(("interleaving", lines.hash))


# ------------------------------------------------------------------ faults
class Interrupted(BaseException):
    pass


EXC = dict(base=Interrupted, memory=MemoryError, keyboard=KeyboardInterrupt, os=OSError)


def traced(fn, at, exc, hook=None):
    """Run fn; raise exc (or call hook) at the at-th executed line of the code under test (None: count only;
    hook: {line number: function}). -> (lines executed [(file, line)], outcome)"""
    seen = []

    def local(frame, event, arg):
        if event == "line":
            seen.append((frame.f_code.co_filename[len(BASE):], frame.f_lineno))
            if hook is not None:
                f = hook.get(len(seen) - 1)
                if f is not None:
                    f()
            elif at is not None and len(seen) - 1 == at:
                raise exc("injected")
        return local

    def top(frame, event, arg):
        if frame.f_code.co_filename.startswith(BASE):
            return local(frame, "call", arg) or local
        return None
    sys.settrace(top)
    try:
        try:
            out = (fn(), None)
        finally:
            sys.settrace(None)
    except BaseException as e:
        from lib.fw import Hang
        if isinstance(e, Hang):
            raise
        out = (None, e)
    return seen, out


def faults(c, api, obs):
    rng = random.Random(c["seed"])
    pool = ops.Pool(rng, api, coins=["Bitcoin", "Litecoin"])
    tables = ops.Tables(api)

    def pick(name):
        while True:
            o = pool.op(api)
            if o["op"] == name and not o.get("bad"):
                return o
    o = pick(c["op"])
    p = ops.plan(o, api)
    inst = api.instance(o["coin"], o["inst"], fresh=True)
    probes = []
    for name in ("encrypt", "decrypt", "create", "decrypt-ec", "confirm", "intermediate"):
        q = pick(name)
        q["coin"] = o["coin"]
        q["inst"] = o["inst"]
        q["net"] = rng.choice(sorted(api.golden[o["coin"]]))
        q["arg"] = None if q["net"] == q["inst"] else q["net"]
        probes.append(ops.plan(q, api))
    seen, out = traced(lambda: ops.invoke(inst, p), None, None)
    ops.judge(obs, "traced: ", p, out)
    first = {}
    counts = {}
    for i, at in enumerate(seen):
        first.setdefault(at, i)
        counts[at] = counts.get(at, 0) + 1
    points = sorted(first.values())
    # also the last occurrence and a few in between
    last = {}
    for i, at in enumerate(seen):
        last[at] = i
    points += rng.sample(sorted(set(last.values()) - set(points)), k=min(20, len(set(last.values()) - set(points))))
    exc = EXC[c["exc"]]
    for j, i in enumerate(points):
        if j % c["parts"] != c["part"]:
            continue
        _, out = traced(lambda: ops.invoke(inst, p), i, exc)
        obs.count("faults injected at a line")
        obs.feature("fault:" + c["exc"])
        if out[1] is None and not (p["want"] is not None and out[0] == p["want"]):
            obs.fail("%s, interrupted at %s:%d, returned %r" % (p["call"][0], seen[i][0], seen[i][1], out[0]))
        where = "after %s was interrupted at %s:%d: " % (p["call"][0], seen[i][0], seen[i][1])
        ops.judge(obs, where, p, obs.call(ops.invoke, inst, p))
        q = probes[j % len(probes)]
        ops.judge(obs, where, q, obs.call(ops.invoke, inst, q))
        ops.instance_config(inst, api.coin(o["coin"]), o["inst"], obs, "an interrupted " + p["call"][0])
        obs.nontrivial((c["op"], seen[i], c["exc"]))
    # the KDF itself fails (memory) at its first, second ... call
    for n in (1, 2, 3):
        before = kdf.STATE["calls"]
        kdf.STATE["fault"] = n
        got = obs.call(ops.invoke, inst, p)
        hit = kdf.STATE["fault"] is None
        kdf.STATE["fault"] = None
        if hit:
            obs.count("faults injected in the KDF")
            if got[1] is None and got[0] != p["want"]:
                obs.fail("%s returned %r although key derivation failed" % (p["call"][0], got[0]))
        ops.judge(obs, "after a failed key derivation: ", p, obs.call(ops.invoke, inst, p))
        for q in probes:
            ops.judge(obs, "after a failed key derivation: ", q, obs.call(ops.invoke, inst, q))
    tables.check(obs, "interrupted operations")


# ------------------------------------------------------------------ one operation in the middle of another
def preempt(c, api, obs):
    """An operation is stopped at one executed line while another thread runs a whole operation (or two threads at
    two lines run one each), then goes on: every line of the operation is tried as the point of the switch."""
    rng = random.Random(c["seed"])
    pool = ops.Pool(rng, api, coins=["Bitcoin", "Litecoin"] if rng.random() < 0.7 else None)
    tables = ops.Tables(api)

    def pick(name):
        if name == "low":
            return pool.low(api)
        while True:
            o = pool.op(api)
            if o["op"] == name and (not o.get("bad") or o["bad"] in ("passphrase", "string")):
                return o

    def near(o):
        """the same operation with one argument different"""
        q = dict(o)
        what = rng.choice(["net", "pw", "priv", "comp", "seed", "salt", "detail", "bad"])
        if what == "net" and o["op"] != "low":
            q["net"] = rng.choice(sorted(api.golden[o["coin"]]))
            q["arg"] = None if q["net"] == q["inst"] else q["net"]
        elif what == "pw" and o["op"] != "low":
            q["pw"] = rng.choice(pool.pws)
        elif what == "priv":
            q["priv"] = rng.choice(pool.keys).hex()
        elif what == "comp":
            q["comp"] = not o["comp"]
        elif o["op"] == "low":
            q["n"], q["salt"] = rng.randrange(1 << 16), rng.choice(pool.salts).hex()
        elif what == "seed":
            q["seed"] = {"hex": rng.choice(pool.seeds).hex()}
        elif what == "salt":
            salt = rng.choice(pool.salts)
            q["salt"] = {"hex": salt.hex()}
        elif what == "detail":
            q["detail"] = not o["detail"]
        else:
            q["bad"] = "passphrase"
        return q
    o = pick(c["op"])
    o.setdefault("bad", None)
    p = ops.plan(o, api)
    inst = api.instance(o["coin"], o["inst"], fresh=True)
    others = []
    for name in ("encrypt", "decrypt", "create", "decrypt-ec", "confirm", "intermediate", "low"):
        q = pick(name)
        if name != "low":
            q["coin"], q["inst"] = o["coin"], o["inst"]
            q["net"] = rng.choice(sorted(api.golden[o["coin"]]))
            q["arg"] = None if q["net"] == q["inst"] else q["net"]
        others.append(ops.plan(q, api))
    alike = [ops.plan(near(o), api) for _ in range(3)]
    while len(alike) < 6:                                   # the same kind of operation on other arguments
        q = pick(c["op"])
        q["coin"], q["inst"] = o["coin"], o["inst"]
        if c["op"] == "low":
            q["fn"], q["net"] = o["fn"], o["net"]
        else:
            q["net"] = rng.choice(sorted(api.golden[o["coin"]]))
            q["arg"] = None if q["net"] == q["inst"] else q["net"]
        alike.append(ops.plan(q, api))
    rng.shuffle(alike)
    seen, out = traced(lambda: ops.invoke(inst, p), None, None)
    ops.judge(obs, "traced: ", p, out)
    places = {}
    for i, at in enumerate(seen):
        places.setdefault(at, []).append(i)
    points = sorted(v[0] for v in places.values()) + sorted({v[-1] for v in places.values() if len(v) > 1})
    rng.shuffle(points)
    points = sorted(points[c["part"]::c["parts"]])
    for j, i in enumerate(points):
        todo = {i: [others[j % len(others)], alike[j % len(alike)]]}
        if c["near"]:
            todo[i].reverse()
        if rng.random() < 0.25 and i + 1 < len(seen):
            todo[rng.randrange(i + 1, len(seen))] = [rng.choice(others + alike)]
        started = []

        def starter(qs):
            def start():
                for q in qs:
                    begin(q)
            return start

        def begin(q):
            box = []

            def body():
                try:
                    box.append((ops.invoke(inst, q), None))
                except BaseException as e:
                    box.append((None, e))
            t = threading.Thread(target=body, daemon=True)
            t.start()
            t.join(0.5)                                   # waits for us, if the code makes operations take turns
            started.append((q, t, box))
        _, out = traced(lambda: ops.invoke(inst, p), None, None, hook={at: starter(qs) for at, qs in todo.items()})
        obs.count("operations run in the middle of another", len(started))
        names = " and ".join(q["call"][0] for q, t, b in started)
        where = "%s:%d" % seen[i]
        for q, t, box in started:
            while t.is_alive():
                t.join(0.2)
            ops.judge(obs, "in the middle of %s at %s: " % (p["call"][0], where), q, box[0])
        ops.judge(obs, "with %s in its middle at %s: " % (names, where), p, out)
        obs.nontrivial((c["op"], seen[i], names))
    ops.instance_config(inst, api.coin(o["coin"]), o["inst"], obs, "operations in the middle of each other")
    tables.check(obs, "operations in the middle of each other")


# ------------------------------------------------------------------ one failure after another
def storm(c, api, obs):
    """Dozens of failing operations in a row, whatever they leave behind (a lock, a slot, a counter, a half-filled
    table), then operations that have to work."""
    rng = random.Random(c["seed"])
    pool = ops.Pool(rng, api, coins=["Bitcoin", "Litecoin"])
    tables = ops.Tables(api)
    insts = {w: api.instance(*w, fresh=True) for w in pool.where}
    kinds = ["surrogate", "kdf", "kdf", "line", "line", "passphrase", "string", "network", "type"]
    same = rng.choice(kinds) if c["alike"] else None

    def fail_once(kind):
        while True:
            o = pool.op(api)
            if not o.get("bad"):
                break
        if kind in ("passphrase", "string", "network") and o["op"] != "intermediate":
            o["bad"] = kind
        p = ops.plan(o, api)
        inst = insts[o["coin"], o["inst"]]
        name, a, k = p["call"]
        if kind == "surrogate" or kind == "type":
            odd = o["pw"] + "\ud800" if kind == "surrogate" else rng.choice([None, 7, o["pw"].encode("utf-8"), [o["pw"]]])
            a2 = tuple(odd if x == o["pw"] else x for x in a)
            k2 = {n: odd if n == "passphrase" else v for n, v in k.items()}
            if (a2, k2) != (a, k):
                got = obs.call(ops.invoke, inst, dict(p, call=(name, a2, k2)))
                if got[1] is None and kind == "surrogate":
                    obs.fail("%s with a passphrase that is not Unicode text returned %r" % (name, got[0]))
            return
        if kind == "line":
            exc = EXC[rng.choice(sorted(EXC))]
            _, got = traced(lambda: ops.invoke(inst, p), rng.randrange(120), exc)
            if got[1] is None and not (p["want"] is not None and got[0] == p["want"]):
                obs.fail("%s, interrupted, returned %r" % (name, got[0]))
            return
        if kind == "kdf":
            kdf.STATE["fault"] = rng.choice([1, 1, 2])
            got = obs.call(ops.invoke, inst, p)
            kdf.STATE["fault"] = None
            if got[1] is None and got[0] != p["want"]:
                obs.fail("%s returned %r although key derivation failed" % (name, got[0]))
            return
        ops.judge(obs, "one failure after another: ", p, obs.call(ops.invoke, inst, p))

    problems = []

    def body(kind):
        try:
            fail_once(kind)
        except Problem as e:
            problems.append(str(e))
    for i in range(c["failures"]):
        kind = same or rng.choice(kinds)
        if c["where"] == "threads" or c["where"] == "both" and i % 2:
            t = threading.Thread(target=body, args=(kind,), daemon=True)
            t.start()
            while t.is_alive():
                t.join(0.2)
        else:
            body(kind)
        if problems:
            obs.fail(problems[0])
        obs.count("failures in a row")
        obs.feature("failure:" + kind)
    for name in ("encrypt", "decrypt", "create", "decrypt-ec", "confirm", "intermediate"):
        while True:
            o = pool.op(api)
            if o["op"] == name and not o.get("bad"):
                break
        p = ops.plan(o, api)
        ops.judge(obs, "after %d failures: " % c["failures"], p, obs.call(ops.invoke, insts[o["coin"], o["inst"]], p))
    for (coin, net), inst in insts.items():
        ops.instance_config(inst, api.coin(coin), net, obs, "failing operations")
    tables.check(obs, "failing operations")
    obs.nontrivial(("storm", c["seed"]))


# ------------------------------------------------------------------ more distinct operations than any table holds
def many(c, api, obs):
    rng = random.Random(c["seed"])
    base = ops.Pool(rng, api, coins=["Bitcoin", "Litecoin"])
    inst = {w: api.instance(*w, fresh=True) for w in base.where}
    done = []

    def again(o, when):
        p = ops.plan(o, api)
        ops.judge(obs, when, p, obs.call(ops.invoke, inst[o["coin"], o["inst"]], p))
    for i in range(c["distinct"]):
        if i % 3 == 0:                                     # neighbours share all but one argument
            base.pws = [gen.passphrase(rng)[0], "p%d" % i]
            base.keys = [gen.key(rng), (ref.N - int.from_bytes(base.keys[0], "big")).to_bytes(32, "big")]
            base.salts = [gen.salt(rng), gen.salt(rng)]
            base.seeds = [gen.seed24(rng), gen.seed24(rng)]
        while True:
            o = base.op(api)
            if not o.get("bad") and c["op"] in (None, o["op"]):
                break
        again(o, "operation %d of many: " % (i + 1))
        done.append(o)
        obs.count("distinct operations on one instance")
        if i % 25 == 24:
            again(done[rng.randrange(len(done))], "an operation done before, after %d others: " % i)
    for o in done[:12] + rng.sample(done, 12) + done[-3:]:
        again(o, "an operation done before, after %d others: " % len(done))
    obs.nontrivial(("many", c["seed"]))


# ------------------------------------------------------------------ coin classes and instances come and go
def lives(c, api, obs):
    """Short-lived coin classes that share a name, a qualified name, a module or (after collection) an address in
    memory, with other tables each time: nothing may be remembered under any of these."""
    rng = random.Random(c["seed"])
    kept = []
    for n in range(c["lives"]):
        coin, net = gen.user_coin(rng)
        key = json.dumps(coin, sort_keys=True)
        if key in api._custom:
            continue
        tables = {k: {"wif_prefix": w, "address_prefix": a} for k, (w, a) in coin["networks"].items()}
        base = rng.choice([api.coins.ICryptocurrency, api.coins.ICryptocurrency, api.coins.Bitcoin, api.coins.Litecoin])
        api._custom[key] = type(rng.choice(["UserCoin", "Coin", "Bitcoin", "Litecoin"]), (base,), {"NETWORKS": tables, "__module__": rng.choice(["coins", "bip38.cryptocurrencies"])})
        try:
            nets = sorted(coin["networks"])
            where = dict(coin=coin, net=net, inst=rng.choice(nets), arg=net, fresh=True)
            a = story.nonec_case(rng, api, **where)
            b = story.ec_case(rng, api, **where)
            inst = api.instance(coin, where["inst"], fresh=True)
            what = "coin class %d: " % n
            enc, detail, _ = story.nonec_model(a, api)
            inter, ii = story.inter_model(b, api)
            made, info = story.create_model(b, api, inter)
            steps = [("encrypt", lambda: obs.call(inst.encrypt, detail["wif"], a["pw"], net), enc),
                     ("decrypt", lambda: obs.call(inst.decrypt, enc, a["pw"], net, True), detail),
                     ("create_new_encrypted_wif", lambda: obs.call(inst.create_new_encrypted_wif, inter, "wif-compressed" if b["comp"] else "wif", gen.raw(b["seed"]), net), made),
                     ("confirm_code", lambda: obs.call(inst.confirm_code, b["pw"], made["confirmation_code"], net, True), story.confirm_detail(b, made)),
                     ("decrypt", lambda: obs.call(inst.decrypt, made["encrypted_wif"], b["pw"], net, True), story.ec_detail(b, api, ii, made, info)),
                     ("wif_to_private_key", lambda: obs.call(api.wif.wif_to_private_key, detail["wif"], api.coin(coin), net), a["priv"]),
                     ("get_wif_type", lambda: obs.call(api.wif.get_wif_type, detail["wif"], api.coin(coin), net), detail["wif_type"]),
                     ("private_key_to_wif", lambda: obs.call(api.wif.private_key_to_wif, a["priv"], detail["wif_type"], api.coin(coin), net), detail["wif"])]
            rng.shuffle(steps)
            for name, f, want in steps[:rng.choice([3, 8])]:
                obs.equal(what + name, f(), want)
            ops.instance_config(inst, api.coin(coin), where["inst"], obs, "operations on a short-lived coin class")
            obs.count("coin classes made and dropped")
            obs.nontrivial(("coin class", key))
            if rng.random() < 0.1:
                kept.append((inst, where, a, enc))
        finally:
            if not kept or kept[-1][1]["coin"] is not coin:
                del api._custom[key]
        steps = inst = f = None
        gc.collect()
    for inst, where, a, enc in kept:
        obs.equal("encrypt, after other coin classes came and went", obs.call(inst.encrypt, story.nonec_model(a, api)[1]["wif"], a["pw"], where["net"]), enc)
        api._custom.pop(json.dumps(where["coin"], sort_keys=True), None)
