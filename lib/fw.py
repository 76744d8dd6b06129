"""Framework of the checks: forked workers that run the real code under observation.

A check module (checks/cNN.py) defines

    PROP, RULE, LEVEL, ASSUMPTIONS
    def phases(tier):  -> list of Phase(...)
    def cases(phase, rng, shard, nshards, tier):  yields JSON-serialisable cases
    def run(case, api, obs):  drives the code under test for one case; reports to obs

Every phase runs in freshly forked processes which install the instrumentation first and
import the code of /repo afterwards, so that a worker only ever sees one configuration.
"""

import collections
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import tempfile
import time
import traceback

from . import kdf as kdfmod
from . import ref

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
CPU_LIMIT = 60.0             # CPU seconds one case may take before it counts as not terminating
MAX_WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


class Phase(collections.namedtuple("Phase", "name kdf shards native_ripemd opts")):
    def __new__(cls, name, kdf="stub", shards=8, native_ripemd=True, **opts):
        return super().__new__(cls, name, kdf, shards, native_ripemd, opts)


class Hang(BaseException):
    pass


class Inconclusive(Exception):
    """The monitor could not observe what it has to judge."""


class Problem(Exception):
    """A violation seen by an oracle."""


def load_coins():
    with open(os.path.join(ROOT, "data", "coins.json")) as f:
        return json.load(f)


def load_data(name):
    with open(os.path.join(ROOT, "data", name)) as f:
        return json.load(f)


# ------------------------------------------------------------------ worker side
class Api:
    """The code under test, as a user sees it, plus the reference model."""

    def __init__(self, kdf_mode, native_ripemd=True):
        self.golden = load_coins()
        if not native_ripemd:
            _hide_native_ripemd()
        elif native_ripemd == "listed":
            _hide_native_ripemd(listed=True)
        kdfmod.install()
        self.kdf_mode = kdf_mode
        self.kdf = kdfmod.mode(kdf_mode)
        sys.path.insert(0, REPO)
        import bip38
        where = os.path.realpath(bip38.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise Inconclusive("bip38 was imported from %s" % where)
        import bip38.crypto
        import bip38.cryptocurrencies
        import bip38.exceptions
        import bip38.libs.base58
        import bip38.p2pkh_address
        import bip38.secp256k1
        import bip38.utils
        import bip38.wif
        self.mod = bip38
        self.BIP38 = bip38.BIP38
        self.coins = bip38.cryptocurrencies
        self.exc = bip38.exceptions
        self.wif = bip38.wif
        self.addr = bip38.p2pkh_address.P2PKHAddress
        self.crypto = bip38.crypto
        self.utils = bip38.utils
        self.b58 = bip38.libs.base58
        self.secp = bip38.secp256k1
        self.Error = bip38.exceptions.Error
        self.REFUSED = (self.Error, ValueError)
        self._inst = {}
        self._ripple = None
        self._custom = {}
        self.pairs = [(c, n) for c in sorted(self.golden) for n in sorted(self.golden[c])
                      if hasattr(self.coins, c)]
        if kdf_mode == "stub":
            self._canary()

    def _canary(self):
        """The stand-in KDF has to be what the code under test really calls; if it reaches
        scrypt some other way, fall back to the real function in model and code alike."""
        before = kdfmod.STATE["calls"]
        try:
            got = self.BIP38.intermediate_code("canary", owner_salt="0011223344556677")
        except BaseException:
            return                                    # judged by the check itself
        want = ref.intermediate("canary", bytes.fromhex("0011223344556677"), None, None, ref.stub_kdf)[0]
        if got != want and kdfmod.STATE["calls"] == before:
            self.kdf_mode = "real"
            self.kdf = kdfmod.mode("real")

    # -- coins
    def coin(self, name):
        """name of a registered coin, or a dict {"networks": {net: [wif, addr]}} for a user-defined one"""
        if isinstance(name, dict):
            key = json.dumps(name, sort_keys=True)
            if key not in self._custom:
                nets = {n: {"wif_prefix": w, "address_prefix": a} for n, (w, a) in name["networks"].items()}
                self._custom[key] = type("UserCoin", (self.coins.ICryptocurrency,), {"NETWORKS": nets})
            return self._custom[key]
        return getattr(self.coins, name)

    def prefixes(self, name, net):
        if isinstance(name, dict):
            return name["networks"][net]
        return self.golden[name][net]

    def instance(self, coin, net, fresh=False):
        if fresh:
            return self.BIP38(self.coin(coin), net)
        key = (json.dumps(coin, sort_keys=True), net)
        if key not in self._inst:
            if len(self._inst) > 400:
                self._inst.clear()
            self._inst[key] = self.BIP38(self.coin(coin), net)
        return self._inst[key]

    def ripple_alphabet(self):
        """Alphabet the code uses for Ripple addresses inside BIP38 (see known_findings.txt, C20);
        the other properties are judged relative to it."""
        if self._ripple is None:
            self._ripple = ref.BTC_ALPHABET
            priv = bytes(range(1, 33))
            if "Ripple" in self.golden and hasattr(self.coins, "Ripple"):
                wp, ap = self.golden["Ripple"]["mainnet"]
                try:
                    got = self.BIP38(self.coins.Ripple).encrypt(ref.wif_encode(priv, wp, True), "probe")
                except Exception:
                    got = None
                if got == ref.encrypt(priv, True, ap, "probe", self.kdf, ref.XRP_ALPHABET)[0]:
                    self._ripple = ref.XRP_ALPHABET
        return self._ripple

    def alphabet(self, coin):
        return self.ripple_alphabet() if coin == "Ripple" else ref.BTC_ALPHABET


def _hide_native_ripemd(listed=False):
    """hashlib as on a platform whose OpenSSL has no RIPEMD-160, or (listed) names it but refuses to make it"""
    if not listed:
        hashlib.algorithms_available = set(hashlib.algorithms_available) - {"ripemd160", "RIPEMD160", "rmd160"}
    real_new = hashlib.new

    def new(name, *a, **k):
        if str(name).lower() in ("ripemd160", "rmd160"):
            raise ValueError("unsupported hash type " + str(name))
        return real_new(name, *a, **k)
    hashlib.new = new
    if hasattr(hashlib, "ripemd160"):
        del hashlib.ripemd160


class Observer:
    """Collects what the oracles saw."""

    def __init__(self):
        self.counts = collections.Counter()
        self.features = collections.Counter()
        self.distinct = set()
        self.judged = 0
        self.problem = None
        self.notes = collections.OrderedDict()

    def count(self, what, n=1):
        self.counts[what] += n

    def feature(self, *names):
        for n in names:
            self.features[n] += 1

    def nontrivial(self, key):
        """one non-trivial input, execution or schedule judged, identified by key"""
        self.judged += 1
        self.distinct.add(hashlib.sha256(repr(key).encode("utf-8", "surrogatepass")).digest()[:10])

    def note(self, key, text):
        self.notes[key] = text

    # -- oracles
    def fail(self, msg):
        raise Problem(msg)

    def call(self, fn, *a, **k):
        """-> (value, None) or (None, exception)"""
        self.counts["calls"] += 1
        try:
            return fn(*a, **k), None
        except (Hang, Problem, KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            return None, e

    def equal(self, what, got, want):
        v, e = got
        self.counts["results compared with the model"] += 1
        if e is not None:
            self.fail("%s: raised %s instead of returning %s" % (what, describe(e), short(want)))
        if not same(v, want):
            self.fail("%s: returned %s, the standard prescribes %s" % (what, short(v), short(want)))

    def refused(self, what, got, kinds):
        v, e = got
        self.counts["refusals observed"] += 1
        if e is None:
            self.fail("%s: returned %s instead of being refused" % (what, short(v)))
        if not isinstance(e, kinds):
            self.fail("%s: raised %s, expected %s" % (what, describe(e), names(kinds)))


def same(v, want):
    if v != want:
        return False
    if isinstance(want, dict):
        return all(same(v[k], want[k]) for k in want)
    if isinstance(want, (list, tuple)):
        return all(same(a, b) for a, b in zip(v, want))
    if isinstance(want, int):
        return isinstance(v, int) and isinstance(v, bool) == isinstance(want, bool)
    return True


def names(kinds):
    if isinstance(kinds, type):
        kinds = (kinds,)
    return "/".join(k.__name__ for k in kinds)


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    at = " at %s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ""
    return "%s(%s)%s" % (type(e).__name__, short(str(e), 200), at)


def short(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


class Coverage:
    """Lines of the code under test executed in this worker (sys.monitoring, each line once)."""

    def __init__(self):
        self.lines = collections.defaultdict(set)
        self.base = os.path.realpath(os.path.join(REPO, "bip38")) + os.sep
        try:
            mon = sys.monitoring
            mon.use_tool_id(mon.COVERAGE_ID, "verif")

            def line(code, lineno):
                f = code.co_filename
                if f.startswith(self.base):
                    self.lines[f[len(self.base):]].add(lineno)
                return mon.DISABLE
            mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
            self.mon, self.line = mon, line
        except Exception:
            self.mon = None

    def start(self):
        if self.mon:
            self.mon.set_events(self.mon.COVERAGE_ID, self.mon.events.LINE)

    def summary(self):
        return {k: len(v) for k, v in self.lines.items()}


def raised_inside(e):
    """Where in the code under test e was raised, if the last call the harness made went there."""
    tb, last = e.__traceback__, None
    here = os.path.dirname(os.path.abspath(__file__))
    root = os.path.join(os.path.realpath(REPO), "bip38") + os.sep
    while tb:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            last = last or "%s:%d" % (os.path.relpath(f, os.path.realpath(REPO)), tb.tb_lineno)
        elif f.startswith(os.path.dirname(here) + os.sep):
            last = None
        tb = tb.tb_next
    return last


def worker(module, phase, shard, tier, seed, out, only=None, history=()):
    """Body of a forked worker; writes its result as JSON to out."""
    res = dict(status="ok", phase=phase.name, shard=shard)
    obs = Observer()
    samples = []
    recent = collections.deque(maxlen=40)
    n = 0
    t0 = time.time()

    def on_cpu(sig, frame):
        raise Hang()
    signal.signal(signal.SIGVTALRM, on_cpu)
    idle = dict(cpu=None, n=0, in_case=False)

    def on_wall(sig, frame):
        # blocked: no CPU time used by any thread of this process over three windows of 20 s
        now = time.process_time()
        if idle["in_case"] and idle["cpu"] is not None and now - idle["cpu"] < 0.01:
            idle["n"] += 1
        else:
            idle["n"] = 0
        idle["cpu"] = now
        if idle["n"] >= 3:
            idle["n"] = 0
            raise Hang()
    if not getattr(module, "WAITS_FOR_CHILDREN", False):
        signal.signal(signal.SIGALRM, on_wall)
        signal.setitimer(signal.ITIMER_REAL, 20, 20)
    case = None
    cov = Coverage()
    try:
        try:
            sys.setrecursionlimit(3000)
            rng = random.Random("%s/%s/%s/%d/%s" % (module.PROP, seed, phase.name, shard, tier))
            pre = getattr(module, "prepare", None)
            if pre:
                pre(phase)
            signal.setitimer(signal.ITIMER_VIRTUAL, 20, 20)
            try:
                api = Api(phase.kdf, phase.native_ripemd)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            api.phase, api.tier, api.seed, api.shard = phase, tier, seed, shard
            cov.start()
            source = [only] if only is not None else module.cases(phase, rng, shard, phase.shards, tier, api)
            for h in history:
                try:
                    module.run(h, api, Observer())
                except BaseException:
                    pass
            want_samples = {0, 1, 7, 50, 300, 2000}
            for case in source:
                signal.setitimer(signal.ITIMER_VIRTUAL, getattr(module, "CPU_LIMIT", CPU_LIMIT), 10)
                idle["in_case"] = True
                try:
                    module.run(case, api, obs)
                except Problem as p:
                    obs.problem = str(p)
                except Hang:
                    obs.problem = "did not terminate: %.0f s of CPU time used, or blocked for a minute" % CPU_LIMIT
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                    idle["in_case"] = False
                if n in want_samples and shard == 0:
                    samples.append(case)
                n += 1
                if obs.problem:
                    break
                recent.append(case)
            fin = getattr(module, "finish", None)
            if fin and not obs.problem and only is None:
                case = dict(finish=True)
                try:
                    fin(api, obs)
                except Problem as p:
                    obs.problem = str(p)
        except Hang:
            obs.problem = "did not terminate while the workload was being prepared"
        except Inconclusive as e:
            res["status"] = "inconclusive"
            res["error"] = str(e)
        except Problem as p:
            obs.problem = str(p)
        except Exception as e:
            inside = raised_inside(e)
            if inside:
                # the workload makes only valid calls outside the oracles
                obs.problem = "a valid call raised %s at %s" % (describe(e), inside)
            res["status"] = "error"
            res["error"] = "case %s\n%s" % (short(case, 600), traceback.format_exc())
        if obs.problem:
            res["status"] = "violation"
            res["message"] = obs.problem
            res["case"] = case
            res["history"] = list(recent)
        res.update(evaluations=max(n, obs.judged), cases=n, counts=dict(obs.counts), features=dict(obs.features),
                   samples=samples, notes=dict(obs.notes), coverage=cov.summary(),
                   lines={k: sorted(v) for k, v in cov.lines.items()},
                   kdf_mode=getattr(locals().get("api"), "kdf_mode", phase.kdf),
                   kdf_calls=kdfmod.STATE["calls"],
                   kdf_params={"N=%s r=%s p=%s" % k: v for k, v in kdfmod.PARAMS.items()},
                   wall=time.time() - t0)
        with open(out + ".keys", "wb") as f:
            f.write(b"".join(obs.distinct))
        with open(out, "w") as f:
            json.dump(res, f, default=repr)
    except BaseException:
        with open(out, "w") as f:
            json.dump(dict(status="error", phase=phase.name, shard=shard, error=traceback.format_exc()), f)


def spawn(fn):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        os.setpgid(0, 0)
        fn()
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)


def kill(pid):
    for target in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            target()
        except OSError:
            pass


def run_jobs(module, plan, tier, seed, budget, scratch, stop_on_violation=True):
    """plan: list of (phase, shard). Runs up to MAX_WORKERS at a time."""
    todo = list(enumerate(plan))
    live, results, expired = {}, [], False
    t0 = time.time()
    stop = False
    while todo or live:
        while todo and len(live) < MAX_WORKERS and not stop:
            i, (phase, shard) = todo.pop(0)
            out = os.path.join(scratch, "job%d.json" % i)
            pid = spawn(lambda: worker(module, phase, shard, tier, seed, out))
            live[pid] = (out, phase, shard)
        if stop:
            todo = []
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid and pid in live:
            out, phase, shard = live.pop(pid)
            kill(pid)                      # anything the worker left behind
            try:
                with open(out) as f:
                    r = json.load(f)
                if os.path.exists(out + ".keys"):
                    with open(out + ".keys", "rb") as f:
                        raw = f.read()
                    r["keys"] = {raw[k:k + 10] for k in range(0, len(raw), 10)}
            except Exception as e:
                r = dict(status="error", phase=phase.name, shard=shard,
                         error="worker ended without a result (status %s): %s" % (status, e))
            results.append(r)
            if r["status"] == "violation" and stop_on_violation:
                stop = True
                for p in live:
                    kill(p)
        elif time.time() - t0 > budget:
            expired = True
            stop = True
            for p in live:
                kill(p)
            time.sleep(0.05)
        else:
            time.sleep(0.02)
    return results, expired


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--phase")
    args = ap.parse_args(argv)
    tier = "thorough" if args.tier == "thorough" else "quick"
    sys.path.insert(0, ROOT)
    module = importlib.import_module("checks." + args.prop.lower())
    if args.replay:
        return replay(module, args.replay)
    started = time.time()
    budget = 780 if tier == "quick" else 3 * 3600
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.prop)
    try:
        ps = [p for p in module.phases(tier) if not args.phase or p.name == args.phase]
        ref._gtab()
        plan = [(p, s) for p in ps for s in range(p.shards)]
        # long (real KDF) shards first
        plan.sort(key=lambda x: (x[0].opts.get("order", 0 if x[0].kdf == "real" else 1)))
        results, expired = run_jobs(module, plan, tier, args.seed, budget, scratch)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    return report(module, tier, args.seed, ps, results, expired, time.time() - started)


def report(module, tier, seed, ps, results, expired, wall):
    os.makedirs(EVID, exist_ok=True)
    prop = module.PROP
    counts, features, params = (collections.Counter() for _ in range(3))
    phases = collections.OrderedDict()
    notes, samples, keys, cover = collections.OrderedDict(), [], set(), collections.defaultdict(set)
    evaluations = kdf_calls = 0
    for r in sorted(results, key=lambda r: (r.get("phase", ""), r.get("shard", 0))):
        counts.update(r.get("counts", {}))
        features.update(r.get("features", {}))
        params.update(r.get("kdf_params", {}))
        notes.update(r.get("notes", {}))
        samples += r.get("samples", [])[:3]
        keys |= r.get("keys", set())
        evaluations += r.get("evaluations", 0)
        kdf_calls += r.get("kdf_calls", 0)
        for f, ls in r.get("lines", {}).items():
            cover[f].update(ls)
        ph = phases.setdefault(r["phase"], dict(workers=0, cases=0, evaluations=0, kdf=r.get("kdf_mode")))
        ph["workers"] += 1
        ph["cases"] += r.get("cases", 0)
        ph["evaluations"] += r.get("evaluations", 0)
    violations = [r for r in results if r["status"] == "violation"]
    errors = [r for r in results if r["status"] in ("error", "inconclusive")]
    extra = getattr(module, "summarise", None)
    extra = extra(counts, features, notes) if extra else {}
    coverage = dict(
        evaluations=evaluations, distinct_nontrivial=len(keys), rule=module.RULE,
        samples=samples[:8], monitor_events=dict(sorted(counts.items())),
        situations=dict(sorted(features.items())), kdf_calls=kdf_calls, kdf_parameters=dict(params),
        phases=phases, code_lines_executed={k: len(v) for k, v in sorted(cover.items())}, **extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=module.LEVEL, coverage=coverage,
              assumptions=module.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(violations))
    if notes:
        ev["coverage"]["notes"] = dict(notes)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for k, text in notes.items():
        if k.startswith("known:"):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d KDF calls, %d lines of bip38 executed, %.1fs" % (
        prop, tier, seed, evaluations, len(keys), kdf_calls, sum(map(len, cover.values())), wall))
    if violations:
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        r = violations[0]
        ph = next(p for p in ps if p.name == r["phase"])
        data = dict(property=prop, tier=tier, seed=seed, message=r["message"], case=r["case"], history=r.get("history", []),
                    phase=dict(name=ph.name, kdf=ph.kdf, native_ripemd=ph.native_ripemd, opts=ph.opts, shard=r["shard"], shards=ph.shards))
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(json.dumps(data, default=repr).encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=repr)
        print("case: %s" % short(r["case"], 600))
        print("observed: %s" % r["message"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for r in errors[:3]:
            print("check error in phase %s shard %s:\n%s" % (r["phase"], r["shard"], r.get("error")))
        return 2
    if expired:
        print("inconclusive: wall-clock watchdog fired")
        return 2
    need = getattr(module, "NEED", ())
    for what in need:
        if not counts.get(what) and not features.get(what):
            print("inconclusive: the monitor never observed %r" % what)
            return 2
    if not evaluations or not keys:
        print("inconclusive: nothing observed")
        return 2
    return 0


def replay(module, path):
    with open(path) as f:
        data = json.load(f)
    ph = data["phase"]
    phase = Phase(ph["name"], ph["kdf"], ph["shards"], ph["native_ripemd"], **ph["opts"])
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        for hist in ([], data.get("history", [])):
            if data["case"] == dict(finish=True):
                fn = lambda out=None: worker(module, phase, ph["shard"], data["tier"], data["seed"], os.path.join(scratch, "r.json"))
            else:
                fn = lambda: worker(module, phase, ph["shard"], data["tier"], data["seed"],
                                    os.path.join(scratch, "r.json"), only=data["case"], history=hist)
            os.waitpid(spawn(fn), 0)
            with open(os.path.join(scratch, "r.json")) as f:
                r = json.load(f)
            if r["status"] == "violation":
                print("observed: %s" % r["message"])
                print("VIOLATION property=%s replay=%s" % (data["property"], path))
                return 1
            if r["status"] != "ok":
                print(r.get("error"))
                return 2
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    print("replay: no violation")
    return 0
