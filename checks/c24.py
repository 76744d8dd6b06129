"""C24 - the same results in every process environment."""
import json
import os
import random
import re
import subprocess
import sys

import ecdsa

from lib import gen, ops, ref
from lib.fw import REPO, Phase

PROP = "C24"
LEVEL = "exploration"
RULE = ("one case = one fresh interpreter in one environment (locale, interpreter options, environment variables, state of the process, calling context, order of imports) running a "
        "list of operations as a user would; every outcome is compared with what the independent model, in the checking process, says; distinct = distinct (environment, operations)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements BIP38; it reproduces the published vectors in setup_cmd",
               "environments are the ones listed in the check, one at a time and in random pairs; only CPython " + sys.version.split()[0] + " is installed here"]
CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "envchild.py")
BARE = {"PATH": "/usr/bin:/bin"}
ASCII = {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}

# name -> (interpreter options, environment added, contexts in the child)
ENVS = {
    "plain": ([], {}, []),
    "ASCII locale": ([], ASCII, []),
    "POSIX locale set at run time": ([], {"LC_ALL": "C.UTF-8"}, ["setlocale"]),
    "no UTF-8 mode": (["-X", "utf8=0"], dict(ASCII, LC_ALL="POSIX", PYTHONIOENCODING="ascii"), []),
    "UTF-8 mode": (["-X", "utf8=1"], {"LC_ALL": "C"}, []),
    "optimised": (["-O"], {}, []),
    "optimised twice": (["-OO"], {}, []),
    "isolated": (["-I"], {}, []),
    "development mode": (["-X", "dev"], {}, []),
    "no environment": (None, {}, []),
    "hash seed 0": ([], {"PYTHONHASHSEED": "0"}, []),
    "hash seed 1": ([], {"PYTHONHASHSEED": "1"}, []),
    "hash seed 4242": ([], {"PYTHONHASHSEED": "4242"}, []),
    "time zone": ([], {"TZ": "Pacific/Kiritimati"}, []),
    "debug variables": ([], {"DEBUG": "1", "VERBOSE": "1", "BIP38_DEBUG": "1", "CI": "1", "TESTING": "1", "PYTEST_CURRENT_TEST": "x", "NO_COLOR": "1"}, []),
    "network variables": ([], {"NETWORK": "testnet", "BIP38_NETWORK": "testnet", "COIN": "Litecoin", "BITCOIN_NETWORK": "testnet", "ENV": "production", "PYTHON_ENV": "production"}, []),
    "Python limits": ([], {"PYTHONINTMAXSTRDIGITS": "640"}, ["decimal"]),
    "debug allocator": ([], {"PYTHONMALLOC": "debug", "MALLOC_PERTURB_": "165"}, []),
    "no working directory": ([], {}, ["no cwd"]),
    "no stdio": ([], {}, ["no stdio"]),
    "few descriptors": ([], {}, ["few descriptors"]),
    "umask": ([], {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "USER": ""}, ["umask"]),
    "random module seeded": ([], {}, ["seeded"]),
    "constant garbage collection": ([], {}, ["gc"]),
    "no garbage collection": ([], {}, ["no gc"]),
    "thread": ([], {}, ["thread"]),
    "generator": ([], {}, ["generator"]),
    "asyncio": ([], {}, ["asyncio"]),
    "executor": ([], {}, ["executor"]),
    "inside except": ([], {}, ["except"]),
    "signal handler": ([], {}, ["signal"]),
    "trace function": ([], {}, ["trace"]),
    "forked child": ([], {}, ["forked"]),
    "a second time": ([], {}, ["twice"]),
    "at exit": ([], {}, ["atexit"]),
    "another time": ([], {}, ["clock"]),
    "a time long ago": ([], {}, ["clock"]),
    "command line arguments": ([], {}, ["arguments"]),
    "low recursion limit": ([], {}, ["low recursion"]),
    "bytes warnings as errors": (["-bb"], {}, []),
    "allocation tracing": (["-X", "tracemalloc=3", "-X", "no_debug_ranges"], {}, []),
    "profile function": ([], {}, ["profile"]),
    "imported from a zip archive": ([], {}, ["zip"]),
    "words of the code": ([], {}, ["words"]),
    "deep in the stack": ([], {}, ["deep"]),
    "very deep in the stack": ([], {}, ["very deep"]),
    "called from nowhere": ([], {}, ["bare frame"]),
    "called from a test": ([], {}, ["test frame"]),
    "called back": ([], {}, ["callbacks"]),
    "called from a finaliser": ([], {}, ["finaliser"]),
    "another context": ([], {}, ["context"]),
    "multiprocessing": ([], {}, ["multiprocessing"]),
    "other users and machines": ([], {}, ["identity"]),
    "other modules loaded": ([], {}, ["modules"]),
    "interactive": (["-i"], {}, ["modules"]),
    "every warning an error": ([], {}, ["strict warnings"]),
    "one processor": ([], {}, ["one processor"]),
    "odd interpreter state": ([], {}, ["odd state"]),
    "odd process state": ([], {}, ["odd process"]),
    "no site module": (["-S"], {}, []),
    "summer time": ([], {"TZ": "AAA-1BBB,J1/0,J365/23"}, ["comma"]),
    "orphan": ([], {}, ["orphan"]),
    "logging configured": ([], {}, ["logging"]),
    "warnings as errors": (["-W", "error", "-W", "ignore::DeprecationWarning"], {}, []),
}
NEED = ("results compared with the model", "interpreters started", "refusals observed", "import order:package not first") + tuple("environment:" + n for n in ENVS)
CTX = {"thread", "generator", "asyncio", "executor", "except", "signal", "trace", "profile", "forked", "twice", "atexit", "deep", "very deep", "multiprocessing", "orphan", "strict warnings"}


def phases(tier):
    q = tier == "quick"
    return [Phase("environments", "stub", 8, rounds=1 if q else 12, pairs=1 if q else 20),
            Phase("environments, real scrypt", "real", 6, rounds=1 if q else 3, few=q)]


def cases(phase, rng, shard, nshards, tier, api):
    names = sorted(ENVS)
    if phase.opts.get("few"):
        names = ["ASCII locale", "optimised", "no environment", "thread", "isolated", "no UTF-8 mode"]
    i = 0
    for _ in range(phase.opts["rounds"]):
        for n in names + ([] if phase.opts.get("few") else ["another time", "a time long ago"]):
            if i % nshards == shard:
                yield dict(envs=[n], seed=rng.randrange(1 << 40), plain=i % (len(names) + 2) >= len(names))
            i += 1
    for _ in range(phase.opts.get("pairs", 0)):
        a, b = rng.sample(names, 2)
        if not (set(ENVS[a][2]) & CTX and set(ENVS[b][2]) & CTX) and {a, b} != {"multiprocessing", "few descriptors"}:
            yield dict(envs=[a, b], seed=rng.randrange(1 << 40))


MODULES = ["bip38", "bip38.bip38", "bip38.wif", "bip38.utils", "bip38.crypto", "bip38.cryptocurrencies", "bip38.p2pkh_address", "bip38.secp256k1", "bip38.exceptions", "bip38.const",
           "bip38.libs.base58", "bip38.libs.ripemd160"]


def do(x):
    if isinstance(x, (bytes, bytearray)):
        return {"b": bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [do(v) for v in x]
    if isinstance(x, dict):
        return {str(k): do(v) for k, v in x.items()}
    return x


def workload(api, rng, n):
    """-> [(operation as data, expected value or None for a refusal)]"""
    out = []
    pool = ops.Pool(rng, api)
    pool.pws = [gen.passphrase(rng, k)[0] for k in ("composed", "decomposed", "astral", "space", "space", "compat", "invisible")] + [gen.passphrase(rng)[0] for _ in range(4)]
    wanted = [(op, lot) for op in ("encrypt", "decrypt", "decrypt-ec", "create", "confirm", "intermediate") for lot in (False, True)] if api.kdf_mode == "stub" else []
    while len(out) < n + len(wanted):
        o = pool.op(api)
        if o.get("bad") == "elsewhere":
            continue
        if len(out) < len(wanted):                          # one of each, with a passphrase that is not ASCII
            if o["op"] != wanted[len(out)][0] or (o["lot"] is not None) != wanted[len(out)][1] or o.get("bad") or o["pw"].isascii():
                continue
        p = ops.plan(o, api)
        name, a, k = p["call"]
        out.append((dict(on=["inst", o["coin"], o["inst"]], name=name, args=do(a), kw=do(k)), None if p["refuse"] else [do(p["want"])]))
    if api.kdf_mode == "real":
        return out
    for comp in (False, True):
        priv = gen.key(rng)
        wp, ap = api.golden["Litecoin"]["mainnet"]
        pub = ref.pubkey(priv, comp)
        wt = "wif-compressed" if comp else "wif"
        pt = "compressed" if comp else "uncompressed"
        msg = rng.randbytes(rng.randrange(1, 90))
        wif = ref.wif_encode(priv, wp, comp)
        lit = {"coin": "Litecoin"}
        low = [(["mod", "bip38.p2pkh_address", "P2PKHAddress"], "encode", [pub], dict(address_prefix=ap, public_key_type=pt), ref.address(pub, ap)),
               (["mod", "bip38.p2pkh_address", "P2PKHAddress"], "decode", [ref.address(pub, ap)], dict(address_prefix=ap), ref.hash160(pub).hex()),
               (["mod", "bip38.p2pkh_address", "P2PKHAddress"], "decode", [ref.address(pub, ap)], dict(address_prefix=ap + 1), None),
               (["mod", "bip38.wif"], "private_key_to_wif", [priv, wt, lit, "mainnet"], {}, wif),
               (["mod", "bip38.wif"], "decode_wif", [wif, wp], {}, [priv, wt, ref.b58decode(wif)[-4:]]),
               (["mod", "bip38.wif"], "get_wif_type", [wif, lit], {}, wt),
               (["mod", "bip38.wif"], "decode_wif", [wif[:-1] + ("1" if wif[-1] != "1" else "2"), wp], {}, None),
               (["mod", "bip38.libs.base58"], "check_encode", [bytes(2) + msg], {}, ref.b58check(bytes(2) + msg)),
               (["mod", "bip38.libs.base58"], "decode", [ref.b58encode(bytes(1) + msg)], {}, bytes(1) + msg),
               (["mod", "bip38.libs.base58"], "decode", ["1\u0661O0"], {}, None),
               (["mod", "bip38.crypto"], "hash160", [msg], {}, ref.hash160(msg)),
               (["mod", "bip38.crypto"], "ripemd160", [msg.hex()], {}, ref.ripemd160(msg)),
               (["mod", "bip38.libs.ripemd160"], "ripemd160", [msg], {}, ref.ripemd160(msg)),
               (["mod", "bip38.utils"], "get_bytes", ["\u00e9\U0001f600"], dict(unhexlify=False), "\u00e9\U0001f600".encode("utf-8")),
               (["mod", "bip38.utils"], "bytes_to_string", ["\u00e9\U0001f600"], {}, "\u00e9\U0001f600".encode("utf-8").hex()),
               (["mod", "bip38.utils"], "integer_to_bytes", [int.from_bytes(msg, "big"), len(msg)], {}, msg),
               (["key"], "key", [priv], {}, [ref.pubkey(priv, True), ref.pubkey(priv, False)]),
               (["key"], "key", [bytes(32)], {}, None)]
        for on, name, a, k, want in low:
            out.append((dict(on=on, name=name, args=do(a), kw=do(k)), None if want is None else [do(want)]))
    rng.shuffle(out)
    return out


def run(c, api, obs):
    rng = random.Random(c["seed"])
    real = api.kdf_mode == "real"
    work = workload(api, rng, 3 if real else 40)
    opts, env, ctx, bare = [], {}, [], False
    for n in c["envs"]:
        a, b, d = ENVS[n]
        bare |= a is None
        opts += a or []
        env.update(b)
        ctx += d
        obs.feature("environment:" + n)
    if bare or rng.random() < 0.1:
        env = dict(BARE, **env)
    else:
        env = dict({k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}, **env)
    mods = [m for m in MODULES]
    if rng.random() < 0.8:
        rng.shuffle(mods)
        obs.feature("import order:package not first" if mods[0] != "bip38" else "import order:package first")
    lx = gen.lex()
    if "words" in ctx:
        # the words and numbers the code under test mentions, as arguments and as environment variables
        words = [w for w in lx.strs if "\0" not in w and len(w) < 60]
        words = [w.encode("utf-8", "replace").decode("ascii", "ignore") for w in rng.sample(words, min(len(words), 80))]
        env = dict({w: rng.choice(["1", "0", "testnet"]) for w in words if re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", w) and not w.startswith(("PYTHON", "LD_", "MALLOC"))}, **env)
    else:
        words = []
    at = lx.int(rng, 1, 1 << 33) or 0
    at = at if at > 500000000 else (at - 1970) * 31557600 + 1000 if 1971 < at < 2200 and lx.new else None
    if at:                                                  # on either side of the time the code under test seems to know
        at = None if c.get("plain") else at + rng.randrange(2, 3600) * (1 if "another time" in c["envs"] else -1)
    job = dict(repo=REPO, words=words, at=at, kdf=api.kdf_mode, contexts=ctx, imports=mods, shift=rng.choice([0, 2] if "another time" in c["envs"] else [1, 3]), deps=os.path.dirname(os.path.dirname(os.path.abspath(ecdsa.__file__))), ops=[w[0] for w in work])
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent-verif-pycache"
    reads = interpret(obs, "in the environment " + " + ".join(c["envs"]), opts, env, job, work)
    obs.count("environment variables watched for")
    new = [v for v in reads if v not in TRIED]
    for v in new[:4]:                                       # the code looks at this variable: it must not matter
        TRIED.add(v)
        obs.feature("variable looked up by the code")
        for value in ("1", "0", "", "testnet", "mainnet", "Litecoin", "/nonexistent", "debug", "16"):
            interpret(obs, "with %s=%r" % (v, value), opts, dict(env, **{v: value}), job, work)
        interpret(obs, "without %s" % v, opts, {k: x for k, x in env.items() if k != v}, job, work)
    obs.nontrivial((c["envs"], c["seed"]))


TRIED = set()


def interpret(obs, what, opts, env, job, work):
    """runs the work in a fresh interpreter and judges every outcome; -> environment variables the code looked up"""
    p = subprocess.Popen([sys.executable, "-B"] + opts + [CHILD], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/")
    try:
        out, err = p.communicate(json.dumps(job).encode("ascii"), timeout=240)
    finally:
        p.kill()
    if p.returncode:
        obs.fail("%s the process ended with %s: %s" % (what, p.returncode, err.decode("utf-8", "replace")[-700:]))
    got = json.loads(out.decode("ascii"))
    obs.count("interpreters started")
    if len(got["results"]) != len(work):
        obs.fail("%s %d of %d operations were done" % (what, len(got["results"]), len(work)))
    for (o, want), g in zip(work, got["results"]):
        obs.count("calls")
        if want is None:
            if g[0] == "value":
                obs.fail("%s %s%s: returned %r" % (what, o["name"], tuple(o["args"]), g[1]))
            if not {"bip38.exceptions.Error", "builtins.ValueError"} & set(g[1]):
                obs.fail("%s %s%s: refused with %s" % (what, o["name"], tuple(o["args"]), g[2]))
            obs.count("refusals observed")
        else:
            if g[0] != "value" or g[1] != want[0]:
                obs.fail("%s %s%s %s: %s, the model says %r" % (what, o["name"], tuple(o["args"]), o["kw"], g[1:], want[0]))
            obs.count("results compared with the model")
    return got["reads"]
