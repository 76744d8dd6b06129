"""Runs in a fresh interpreter, in an environment chosen by checks/c24.py: reads operations as JSON from stdin, runs
them as a user would, writes the outcomes as JSON to the descriptor that was stdout."""
import os
import sys

sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.dirname(os.path.abspath(__file__))]
OUT = os.dup(1)
os.dup2(2, 1)


def load(name, path):
    import importlib.util
    spec = importlib.util.spec_from_file_location(name, path, submodule_search_locations=[os.path.dirname(path)] if path.endswith("__init__.py") else None)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def undo(x):
    if isinstance(x, dict):
        if set(x) == {"b"}:
            return bytes.fromhex(x["b"])
        return {k: undo(v) for k, v in x.items()}
    return [undo(v) for v in x] if isinstance(x, list) else x


def do(x):
    if isinstance(x, (bytes, bytearray)):
        return {"b": bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [do(v) for v in x]
    if isinstance(x, dict):
        return {str(k): do(v) for k, v in x.items()}
    return x if isinstance(x, (int, str, bool, type(None))) else repr(x)


def watch_environment(repo):
    """-> set that receives the names of environment variables the code under test looks up"""
    reads = set()
    base = os.path.realpath(os.path.join(repo, "bip38")) + os.sep
    cls = type(os.environ)

    def wrap(real):
        def look(self, key, *a):
            f = sys._getframe(1)
            for _ in range(6):
                if f is None:
                    break
                if f.f_code.co_filename.startswith(base):
                    reads.add(os.fsdecode(key) if isinstance(key, (str, bytes)) else repr(key))
                    break
                f = f.f_back
            return real(self, key, *a)
        return look
    cls.__getitem__ = wrap(cls.__getitem__)
    for n in ("__contains__", "get"):
        if n in vars(cls):
            setattr(cls, n, wrap(vars(cls)[n]))
    return reads


def _call_one(o):
    return _one(o)


def main():
    import json
    job = json.loads(sys.stdin.buffer.read().decode("ascii"))
    out = {"flags": repr(sys.flags), "results": []}
    here = set(job["contexts"])
    if job.get("deps") and job["deps"] not in sys.path:
        sys.path.append(job["deps"])
    if "setlocale" in here:
        import locale
        locale.setlocale(locale.LC_ALL, "C")
    if "gc" in here:
        import gc
        gc.set_threshold(1, 1, 1)
    if "no gc" in here:
        import gc
        gc.disable()
    if job["kdf"] == "stub":
        import types
        pkg = types.ModuleType("veriflib")
        pkg.__path__ = [os.path.dirname(os.path.abspath(__file__))]
        sys.modules["veriflib"] = pkg
        import veriflib.kdf as kdf
        kdf.install()
        kdf.mode("stub")
    if "no cwd" in here:
        import tempfile
        d = tempfile.mkdtemp()
        os.chdir(d)
        os.rmdir(d)
    if "no stdio" in here:
        sys.stdin = sys.stdout = sys.stderr = None
        sys.__stdin__ = sys.__stdout__ = sys.__stderr__ = None
    if "one processor" in here:
        os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})
    if "odd state" in here:
        import gc
        gc.set_threshold(0)
        sys.setswitchinterval(0.5)
        sys.executable = ""
        sys.argv = []
        sys.orig_argv = []
        sys.dont_write_bytecode = False
        sys.pycache_prefix = "/dev/null/cache"
        if hasattr(sys, "set_int_max_str_digits"):
            sys.set_int_max_str_digits(0)
        vars(sys.modules["__main__"]).pop("__file__", None)
    if "odd process" in here:
        import resource
        import signal
        os.umask(0o077)
        for n in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE):
            signal.signal(n, signal.SIG_IGN)
        os.setpriority(os.PRIO_PROCESS, 0, 5)
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        resource.setrlimit(resource.RLIMIT_STACK, (hard, hard))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if "comma" in here:
        import locale
        real_conv = locale.localeconv
        locale.localeconv = lambda: dict(real_conv(), decimal_point=",", thousands_sep=".", grouping=[3, 3, 0])
    if "few descriptors" in here:
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (16, 16))
    if "identity" in here:
        import platform
        import socket
        import uuid
        os.getuid = os.geteuid = os.getgid = os.getegid = lambda: 1000
        os.getpid = lambda: 1
        os.getlogin = lambda: "somebody"
        os.cpu_count = lambda: 1
        platform.node = socket.gethostname = lambda: "elsewhere"
        platform.system = lambda: "Windows"
        platform.machine = lambda: "AMD64"
        uuid.getnode = lambda: 1
    if "modules" in here:
        import types
        for n in ("pytest", "_pytest", "nose", "IPython", "django", "gevent", "numpy", "coincurve", "gmpy2_", "debugpy", "pydevd", "coverage", "sentry_sdk"):
            sys.modules.setdefault(n, types.ModuleType(n))
        import doctest
        import unittest
        sys.ps1, sys.ps2, sys.frozen, sys._MEIPASS = ">>> ", "... ", True, "/nonexistent"
    if "umask" in here:
        os.umask(0o777)
    if "seeded" in here:
        import random
        random.seed(0)
    if "decimal" in here:
        import decimal
        decimal.getcontext().prec = 3
        if hasattr(sys, "set_int_max_str_digits"):
            sys.set_int_max_str_digits(640)
    if "clock" in here:
        import datetime
        import time
        shift = [1e9, -1.7e9, 4e9, -0.95e9][job["shift"]]
        if job.get("at"):                                     # the time the code under test seems to know
            shift = job["at"] - time.time()
        for n in ("time", "monotonic", "perf_counter", "process_time"):
            setattr(time, n, (lambda real: lambda: abs(real() + shift))(getattr(time, n)))
        for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
            setattr(time, n, (lambda real: lambda: abs(real() + int(shift) * 10 ** 9))(getattr(time, n)))

        for n in ("gmtime", "localtime", "ctime"):
            setattr(time, n, (lambda real: lambda *a: real(*(a or (time.time(),))))(getattr(time, n)))
        time.strftime = (lambda real: lambda f, *a: real(f, *(a or (time.localtime(),))))(time.strftime)

        class Later(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(time.time(), tz)

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

        class Day(datetime.date):
            @classmethod
            def today(cls):
                return cls.fromtimestamp(time.time())
        datetime.datetime, datetime.date = Later, Day
    if "words" in here:
        sys.argv[1:] = job["words"] + ["-" + w for w in job["words"]] + ["--" + w for w in job["words"]]
    if "zip" in here:
        import shutil
        import tempfile
        import zipfile
        top = tempfile.mkdtemp()
        import atexit
        atexit.register(shutil.rmtree, top, True)
        with zipfile.ZipFile(os.path.join(top, "library.zip"), "w") as z:
            for d, _, names in os.walk(os.path.join(job["repo"], "bip38")):
                for n in names:
                    if "__pycache__" not in d:
                        z.write(os.path.join(d, n), os.path.relpath(os.path.join(d, n), job["repo"]))
        job["repo"] = os.path.join(top, "library.zip")
    if "arguments" in here:
        sys.argv[1:] = ["--testnet", "--network", "testnet", "--debug", "-v", "--lot", "1"]
    reads = watch_environment(job["repo"])
    sys.path.insert(0, job["repo"])
    import importlib
    for name in job["imports"]:
        importlib.import_module(name)
    import bip38
    from bip38 import cryptocurrencies as coins
    import bip38.exceptions
    import bip38.libs.base58
    import bip38.p2pkh_address
    import bip38.wif
    import bip38.crypto
    import bip38.utils
    import bip38.secp256k1
    assert_path = os.path.realpath(bip38.__file__)
    if not assert_path.startswith(os.path.realpath(job["repo"]) + os.sep):
        raise SystemExit("bip38 was imported from %s" % assert_path)
    if "low recursion" in here:
        sys.setrecursionlimit(200)
    if "strict warnings" in here:
        import warnings
        warnings.resetwarnings()
        warnings.simplefilter("error")
    if "logging" in here:
        import logging
        logging.basicConfig(level=1, handlers=[logging.NullHandler()])
        logging.raiseExceptions = True
    inst = {}
    call = [lambda f, a, k: f(*a, **k)]
    if "bare frame" in here:                                  # called by code without a name, a file or a module
        call[0] = eval(compile("lambda f, a, k: f(*a, **k)", "<stdin>", "eval"), {"__name__": None, "__builtins__": {}})
    if "test frame" in here:
        space = {"__name__": "tests.test_bip38", "__file__": "/x/tests/test_bip38.py"}
        exec(compile("def test_decrypt(f, a, k):\n    return f(*a, **k)\n", "/x/tests/test_bip38.py", "exec"), space)
        call[0] = space["test_decrypt"]
    if "callbacks" in here:
        import functools

        def by_property(f, a, k):
            return type("T", (), {"x": property(lambda self: f(*a, **k))})().x

        def by_class(f, a, k):
            class T:
                x = f(*a, **k)
            return T.x

        def by_sort(f, a, k):
            box = []
            sorted([1], key=lambda _: box.append(f(*a, **k)) or 0)
            return box[0]

        def by_attribute(f, a, k):
            return type("T", (), {"__getattr__": lambda self, name: f(*a, **k)})().anything

        def by_with(f, a, k):
            box = []
            import contextlib
            with contextlib.ExitStack() as st:
                st.callback(lambda: box.append(f(*a, **k)))
            return box[0]
        ways = [by_property, by_class, by_sort, by_attribute, by_with, lambda f, a, k: [f(*a, **k) for _ in (1,)][0], lambda f, a, k: next(map(lambda _: f(*a, **k), (1,))),
                lambda f, a, k: functools.reduce(lambda x, y: f(*a, **k), (1, 2)), lambda f, a, k: functools.partial(f, *a, **k)()]
        turn = [0]

        def by_turns(f, a, k):
            turn[0] += 1
            return ways[turn[0] % len(ways)](f, a, k)
        call[0] = by_turns
    if "finaliser" in here:
        def dying(f, a, k):
            box = []

            class D:
                def __del__(self):
                    try:
                        box.append((True, f(*a, **k)))
                    except BaseException as e:
                        box.append((False, e))
            D()
            if not box[0][0]:
                raise box[0][1]
            return box[0][1]
        call[0] = dying
    if "context" in here:
        import contextvars
        call[0] = lambda f, a, k: contextvars.copy_context().run(f, *a, **k)

    def one(o):
        try:
            o = undo(o)
            where, name, a, k = o["on"], o["name"], o["args"], o["kw"]
            if where[0] == "inst":
                key = (where[1], where[2])
                if key not in inst:
                    inst[key] = bip38.BIP38(getattr(coins, where[1]), where[2])
                f = getattr(inst[key], name)
            elif where[0] == "key":
                pk = call[0](bip38.secp256k1.PrivateKey.from_bytes, a, {}).public_key()
                return ["value", do([pk.raw_compressed(), pk.raw_uncompressed()])]
            else:
                obj = sys.modules[where[1]]
                for part in where[2:]:
                    obj = getattr(obj, part)
                a = [getattr(coins, x["coin"]) if isinstance(x, dict) and set(x) == {"coin"} else x for x in a]
                f = getattr(obj, name)
            return ["value", do(call[0](f, a, k))]
        except Exception as e:
            return ["error", ["%s.%s" % (t.__module__, t.__qualname__) for t in type(e).__mro__], repr(e)[:300]]

    def every():
        return [one(o) for o in job["ops"]]
    if "thread" in here:
        import threading
        threading.stack_size(512 * 1024)
        box = []
        t = threading.Thread(target=lambda: box.append(every()))
        t.start()
        t.join()
        out["results"] = box[0]
    elif "generator" in here:
        out["results"] = list(one(o) for o in job["ops"])
    elif "asyncio" in here:
        import asyncio

        async def main_():
            return [one(o) for o in job["ops"]]
        out["results"] = asyncio.run(main_())
    elif "executor" in here:
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            out["results"] = list(ex.map(one, job["ops"]))
    elif "deep" in here:
        def down(n):
            return every() if not n else down(n - 1)
        sys.setrecursionlimit(max(1000, sys.getrecursionlimit()))
        out["results"] = down(600)
    elif "very deep" in here:
        import threading
        threading.stack_size(256 << 20)
        sys.setrecursionlimit(30000)
        box = []

        def down(n):
            return every() if not n else down(n - 1)
        t = threading.Thread(target=lambda: box.append(down(12000)))
        t.start()
        t.join()
        out["results"] = box[0]
    elif "multiprocessing" in here:
        import multiprocessing
        global _one
        _one = one
        with multiprocessing.get_context("fork").Pool(2) as pl:
            out["results"] = pl.map(_call_one, job["ops"], chunksize=5)
    elif "except" in here:
        try:
            raise KeyError("outer")
        except KeyError:
            out["results"] = every()
    elif "signal" in here:
        import signal
        box = []
        signal.signal(signal.SIGUSR1, lambda *a: box.append(every()))
        os.kill(os.getpid(), signal.SIGUSR1)
        while not box:
            pass
        out["results"] = box[0]
    elif "trace" in here:
        sys.settrace(lambda *a: None)
        out["results"] = every()
        sys.settrace(None)
    elif "profile" in here:
        sys.setprofile(lambda *a: None)
        out["results"] = every()
        sys.setprofile(None)
    elif "forked" in here:
        one(job["ops"][0])
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(every()).encode("ascii"))
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            out["results"] = json.loads(f.read().decode("ascii"))
        os.waitpid(pid, 0)
    elif "orphan" in here:                                   # a process in a session of its own whose parent is gone
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setsid()
            parent = os.getpid()
            if os.fork():
                os._exit(0)
            for _ in range(2000):
                if os.getppid() != parent:
                    break
                import time
                time.sleep(0.001)
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(every()).encode("ascii"))
            os._exit(0)
        os.close(w)
        os.waitpid(pid, 0)
        with os.fdopen(r, "rb") as f:
            out["results"] = json.loads(f.read().decode("ascii"))
    elif "twice" in here:
        every()
        out["results"] = every()
    else:
        out["results"] = every()

    def finish():
        out["reads"] = sorted(reads)
        data = json.dumps(out).encode("ascii")
        while data:
            data = data[os.write(OUT, data):]
    if "atexit" in here:
        import atexit

        def late():
            out["results"] = every()
            finish()
        atexit.register(late)
    else:
        finish()


main()
