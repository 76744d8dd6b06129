"""C21 - operations keep secrets to themselves: no I/O and no leaks in errors."""
import base64
import logging
import os
import random
import re
import sys
import tempfile
import threading
import traceback
import warnings

from lib import gen, kdf, mutate, ops, ref, story
from lib.fw import Phase, short

PROP = "C21"
LEVEL = "exploration"
RULE = ("one case = a batch of operations, succeeding and failing, each run under a watch of audit events, file descriptors 1 and 2, sys.stdout/stderr, logging, warnings and the environment; "
        "every error raised is searched for the passphrase, private key and WIFs involved; distinct = distinct (operation, arguments)")
ASSUMPTIONS = ["side effects are visible as Python audit events, writes to descriptors 1/2, logging records, warnings or environment changes (a C extension writing to a descriptor of its own making is not seen)",
               "text counts as leaked when an error message, or one in its cause/context chain, contains 10 or more consecutive characters of a private key or WIF, or a random 10 character token of the passphrase (as text or hex)"]
NEED = ("calls watched", "error texts searched", "refused:encrypt", "refused:decrypt", "refused:confirm_code", "refused:create_new_encrypted_wif", "refused:intermediate_code", "refused:wif functions", "shape:short", "shape:any",
        "monitor self-test: print", "monitor self-test: open", "monitor self-test: socket", "monitor self-test: environ", "monitor self-test: log", "monitor self-test: warn", "monitor self-test: process", "monitor self-test: fd")
WATCH = dict(on=False, events=[], texts=[])
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.system", "os.exec", "os.posix_spawn", "os.spawn",
          "os.fork", "os.forkpty", "os.putenv", "os.unsetenv", "os.kill", "os.killpg", "os.startfile", "subprocess.Popen", "sqlite3.connect", "urllib.Request", "webbrowser.open", "builtins.input",
          "ftplib.connect", "smtplib.connect", "http.client.connect", "poplib.connect", "imaplib.open", "nntplib.connect", "telnetlib.Telnet.open", "pty.spawn", "syslog.syslog", "syslog.openlog",
          "tempfile.mkstemp", "tempfile.mkdtemp", "msvcrt.open_osfhandle", "os.setxattr", "os.chdir", "os.lockf", "fcntl.flock", "mmap.__new__"}
RAW = ("write", "pwrite", "writev", "pwritev", "memfd_create", "pipe", "pipe2", "mkfifo", "mknod", "sendfile", "copy_file_range", "openpty", "eventfd", "nice")


def spied(name, real):
    def call(*a, **k):
        if WATCH["on"] and threading.get_ident() == WATCH["thread"]:
            WATCH["events"].append("os.%s%s" % (name, short(a, 120)))
        return real(*a, **k)
    return call


def prepare(phase):
    def audit(ev, args):
        if not WATCH["on"] or threading.get_ident() != WATCH["thread"]:
            return
        if ev == "open":
            path, mode, flags = args
            if isinstance(mode, str) and any(ch in mode for ch in "wax+") or (flags or 0) & WRITE_FLAGS:
                WATCH["events"].append("%s opened for writing" % short(path, 80))
        elif ev in EVENTS or ev.startswith(("socket.", "shutil.")):
            WATCH["events"].append("audit event %s%s" % (ev, short(args, 120)))
        elif len(WATCH["texts"]) < 2000 and not ev.startswith("ctypes."):
            for a in args:
                if isinstance(a, (str, bytes, bytearray)) and a:
                    WATCH["texts"].append((ev, a))
    sys.addaudithook(audit)
    for name in RAW:                                # no audit events of their own
        if hasattr(os, name):
            setattr(os, name, spied(name, getattr(os, name)))
    handle = logging.Logger.handle

    def spy(self, record):
        if WATCH["on"]:
            try:
                text = record.getMessage()
            except Exception:
                text = repr(record.msg)
            WATCH["events"].append("log record %r on %r" % (short(text, 120), self.name))
            return None
        return handle(self, record)
    logging.Logger.handle = spy
    logging.getLogger().setLevel(1)
    logging.disable(logging.NOTSET)

    def show(message, category, filename, lineno, file=None, line=None):
        if WATCH["on"]:
            WATCH["events"].append("warning %s: %s" % (category.__name__, short(str(message), 120)))
    warnings.showwarning = show
    warnings.simplefilter("always")
    for cat in (DeprecationWarning, PendingDeprecationWarning, ResourceWarning, ImportWarning):
        warnings.simplefilter("ignore", cat)


class Watch:
    """Everything a call does to the outside, between enter and exit."""

    def __init__(self, obs):
        self.obs = obs
        self.file = tempfile.TemporaryFile()
        self.null = None

    def run(self, fn, *a, **k):
        sys.stdout.flush()
        sys.stderr.flush()
        saved = os.dup(1), os.dup(2)
        streams = sys.stdout, sys.stderr
        self.file.seek(0)
        self.file.truncate()
        os.dup2(self.file.fileno(), 1)
        os.dup2(self.file.fileno(), 2)
        env = dict(os.environ)
        argv, cwd = list(sys.argv), os.getcwd()
        WATCH["events"] = []
        WATCH["texts"] = []
        WATCH["thread"] = threading.get_ident()
        WATCH["on"] = True
        try:
            got = self.obs.call(fn, *a, **k)
        finally:
            WATCH["on"] = False
            for s in streams + (sys.stdout, sys.stderr):
                s.flush()
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
            os.close(saved[0])
            os.close(saved[1])
        events = WATCH["events"]
        self.file.seek(0)
        out = self.file.read()
        if out:
            events.append("wrote %s to stdout/stderr" % short(out, 200))
        if dict(os.environ) != env:
            events.append("changed the environment: %s" % short(sorted(set(os.environ.items()) ^ set(env.items())), 200))
        if sys.argv != argv or os.getcwd() != cwd:
            events.append("changed argv or the working directory")
        if (sys.stdout, sys.stderr) != streams:
            events.append("replaced sys.stdout/stderr")
        self.obs.count("calls watched")
        return got, events


def phases(tier):
    q = tier == "quick"
    return [Phase("stub", "stub", 8, n=51 if q else 1050, per=25), Phase("no native RIPEMD-160", "stub", 2, native_ripemd=False, n=15 if q else 100, per=25),
            Phase("real scrypt", "real", 2, n=3 if q else 30, per=9, order=0)]


def cases(phase, rng, shard, nshards, tier, api):
    yield dict(mode="selftest")
    for i in range(phase.opts["n"]):
        yield dict(mode=("ops", "secrets", "shapes")[i % 3], seed=rng.randrange(1 << 40), n=phase.opts["per"])


def run(c, api, obs):
    if not hasattr(api, "watch"):
        api.watch = Watch(obs)
    api.watch.obs = obs
    globals()["do_" + c["mode"]](c, api, obs)


# ------------------------------------------------------------------ the monitor has to see what it claims to see
def do_selftest(c, api, obs):
    import socket
    w = api.watch

    def spawn():
        import subprocess
        subprocess.run(["/bin/true"])

    def env():
        os.environ["VERIF_SELFTEST"] = "1"
        del os.environ["VERIF_SELFTEST"]

    def sock():
        s = socket.socket()
        s.close()
        try:
            socket.getaddrinfo("127.0.0.1", 9)
        except OSError:
            pass
    acts = dict(print=lambda: print("x"), fd=lambda: os.write(2, b"x"), open=lambda: open("/dev/null", "w").close(), socket=sock, environ=env,
                log=lambda: logging.getLogger("bip38.selftest").debug("x"), warn=lambda: warnings.warn("x", UserWarning), process=spawn)
    for name, act in acts.items():
        got, events = w.run(act)
        if events:
            obs.count("monitor self-test: " + name)


# ------------------------------------------------------------------ operations from the shared pool
def pieces(kind, s):
    """substrings that must not turn up in an error"""
    if kind == "passphrase":
        return [s]
    return [s[i:i + 10] for i in range(len(s) - 9)]


def text_of(e):
    seen, out = set(), []
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        out.append("".join(traceback.format_exception_only(type(e), e)))
        out.append(str(e))
        if not isinstance(e, UnicodeError):
            out += [str(a) for a in e.args] + [repr(a) for a in e.args]
        e = e.__cause__ or e.__context__
    return "\n".join(out)


def judge(what, got, events, secrets, obs, args=None):
    if events:
        obs.fail("%s: %s" % (what, "; ".join(events[:4])))
    for ev, a in WATCH["texts"]:
        obs.count("audit event texts searched")
        for kind, s in secrets:
            if isinstance(a, str) and isinstance(s, str) and s in a or not isinstance(a, str) and (s if isinstance(s, bytes) else s.encode("utf-8", "surrogatepass")) in a:
                obs.fail("%s: audit event %r carries the %s: %s" % (what, ev, kind, short(a, 120)))
    if got[1] is None:
        return
    obs.feature("refused:" + what)
    text = text_of(got[1])
    low = text.lower()
    dense = re.sub("[^0-9A-Za-z]", "", text)                 # written with blanks or commas in between, or backwards
    octets = bytes(int(m) & 255 for m in re.findall("[0-9]{1,3}", text)) if len(text) < 20000 else b""
    obs.count("error texts searched")
    for kind, s in secrets:
        for p in pieces(kind, s):
            if isinstance(p, bytes):
                if p in octets:
                    obs.fail("%s: the error %s lists the bytes of the private key" % (what, short(text, 400)))
                continue
            if p in text or kind == "private key" and p.lower() in low or p in dense or p[::-1] in dense or kind == "private key" and p.lower() in dense.lower() or len(p) >= 10 and p.encode("utf-8", "replace") in octets:
                obs.fail("%s: the error %s contains %r of the %s" % (what, short(text, 400), p, kind))


def secret_pw(rng, kinds):
    """-> passphrase holding a random 10 character token"""
    token = "".join(rng.choice("ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz23456789") for _ in range(10))
    a = gen.passphrase(rng, rng.choice(kinds))[0]
    i = rng.choice([0, 0, len(a), rng.randrange(len(a) + 1)])
    api_tokens[a[:i] + token + a[i:]] = token
    return a[:i] + token + a[i:]


api_tokens = {}


def pw_forms(pw):
    token = api_tokens[pw]
    return [("passphrase", token), ("passphrase", token.encode().hex())]


def key_secrets(priv, wps):
    out = [("private key", priv.hex()), ("private key", str(int.from_bytes(priv, "big"))), ("private key", repr(priv)[2:-1])]
    out.append(("private key", base64.b64encode(priv).decode().rstrip("=")))
    out.append(("private key bytes", priv))
    for wp in wps:
        out += [("WIF", ref.wif_encode(priv, wp, comp)) for comp in (True, False)]
    return out


def do_ops(c, api, obs):
    rng = random.Random(c["seed"])
    pool = ops.Pool(rng, api)
    api_tokens.clear()
    pool.pws = [secret_pw(rng, [k]) for k in ("ascii", "composed", "long", "pieces")]
    pool.keys = [rng.randbytes(31).rjust(32, b"\x5a") for _ in range(3)]
    for _ in range(c["n"]):
        o = pool.op(api)
        p = ops.plan(o, api)
        inst = api.instance(o["coin"], o["inst"])
        fault = rng.random() < 0.08
        if fault:
            kdf.STATE["fault"] = 1
        try:
            got, events = api.watch.run(ops.invoke, inst, p)
        finally:
            hit, kdf.STATE["fault"] = fault and kdf.STATE["fault"] is None, None
        if hit:
            obs.count("key derivation failures injected")
        secrets = pw_forms(o["pw"]) + key_secrets(bytes.fromhex(o["priv"]), [api.golden[o["coin"]][o["net"]][0]])
        judge(p["call"][0], got, events, secrets, obs)
        obs.nontrivial((p["call"][0], sorted(o.items(), key=str)))


# ------------------------------------------------------------------ every kind of argument, most of them without a token to look for
def do_shapes(c, api, obs):
    rng = random.Random(c["seed"])
    api_tokens.clear()
    for i in range(c["n"]):
        pool = ops.Pool(rng, api)
        short_ = rng.choice(["", "a", "0", "ab", "abc", "\u00e9", "1234", " ", "password", "\0", "bip38", "\u00e9\u00e9\u00e9"])
        any_, kind = gen.passphrase(rng)
        pool.pws = [short_, any_]
        pool.keys = [rng.randbytes(31).rjust(32, b"\x5a") for _ in range(2)]
        coin, net, *_ = gen.coin_net(rng, api)
        pool.where = [(coin, net)] if not isinstance(coin, dict) else pool.where
        pool.lots = [gen.lotseq(rng), (None, None)]
        pool.salts = [gen.salt(rng)]
        pool.seeds = [gen.seed24(rng)]
        o = pool.op(api, 0.35)
        p = ops.plan(o, api)
        got, events = api.watch.run(ops.invoke, api.instance(o["coin"], o["inst"], fresh=rng.random() < 0.5), p)
        pw = o["pw"] or ""
        obs.feature("shape:short" if pw == short_ else "shape:any")
        secrets = [("passphrase", pw)] if len(pw) >= 12 and kind != "from the code's constants" else []
        judge(p["call"][0], got, events, secrets + key_secrets(bytes.fromhex(o["priv"]), [api.golden[o["coin"]][o["net"]][0]]) if o["op"] != "low" else [], obs)
        obs.nontrivial((p["call"][0], sorted(o.items(), key=str)))


# ------------------------------------------------------------------ bad input made of secrets
def do_secrets(c, api, obs):
    rng = random.Random(c["seed"])
    for _ in range(c["n"]):
        coin, net = gen.coin_net(rng, api)
        wp, ap = api.prefixes(coin, net)
        nets = list(coin["networks"]) if isinstance(coin, dict) else sorted(api.golden[coin])
        inst = api.instance(coin, net)
        cls = api.coin(coin)
        priv, pw = rng.randbytes(31).rjust(32, b"\x5a"), secret_pw(rng, ["ascii", "composed", "mixed", "long", "space", "astral"])
        comp = rng.random() < 0.5
        wif = ref.wif_encode(priv, wp, comp)
        wt = "wif-compressed" if comp else "wif"
        enc = ref.encrypt(priv, comp, ap, pw, api.kdf, api.alphabet(coin))[0]
        bad_wif = mutate.edits(rng, wif)[1]
        if len(bad_wif) < 12:
            bad_wif = wif[:-1]
        payload = ref.b58check_decode(wif)
        forged = ref.b58check(payload[:-1] + bytes([payload[-1] ^ 2])) if comp else ref.b58check(payload + b"\2")
        other = ref.wif_encode(priv, (wp + 1) % 256, comp)
        W, P, B = api.wif, api.secp.PrivateKey, api.BIP38
        short_key = priv[:rng.choice([16, 20, 30, 31])]
        big = (ref.N + rng.randrange(1, 1 << 100)).to_bytes(32, "big")
        todo = [
            ("encrypt", lambda: inst.encrypt(bad_wif, pw)), ("encrypt", lambda: inst.encrypt(forged, pw)), ("encrypt", lambda: inst.encrypt(other, pw)),
            ("encrypt", lambda: inst.encrypt(pw, wif)), ("encrypt", lambda: inst.encrypt(priv.hex(), pw)), ("encrypt", lambda: inst.encrypt(wif, pw, "no such network")),
            ("encrypt", lambda: inst.encrypt(enc, pw)), ("encrypt", lambda: inst.encrypt(wif, pw.encode("utf-8", "replace"))), ("encrypt", lambda: inst.encrypt(wif, None)),
            ("encrypt", lambda: inst.encrypt(ref.wif_encode(big, wp, comp), pw)), ("encrypt", lambda: inst.encrypt(wif.encode(), pw)), ("encrypt", lambda: inst.encrypt(wif + " ", pw)),
            ("encrypt", lambda: inst.encrypt("\u00e9" + wif, pw)), ("encrypt", lambda: inst.encrypt(wif.replace(wif[20], "0"), pw)),
            ("decrypt", lambda: inst.decrypt(enc, pw + "x")), ("decrypt", lambda: inst.decrypt(pw, enc)), ("decrypt", lambda: inst.decrypt(wif, pw)), ("decrypt", lambda: inst.decrypt(enc, pw, "no such network")),
            ("decrypt", lambda: inst.decrypt(enc[:-1] + ("2" if enc[-1] != "2" else "3"), pw)), ("decrypt", lambda: inst.decrypt(enc, None)), ("decrypt", lambda: inst.decrypt(enc, pw.encode("utf-8", "replace"))),
            ("decrypt", lambda: inst.decrypt(bad_wif, pw, detail=True)), ("decrypt", lambda: inst.decrypt(priv.hex(), pw)),
            ("confirm_code", lambda: inst.confirm_code(pw, wif)), ("confirm_code", lambda: inst.confirm_code(wif, pw)), ("confirm_code", lambda: inst.confirm_code(pw, "cfrm38")),
            ("create_new_encrypted_wif", lambda: inst.create_new_encrypted_wif(pw)), ("create_new_encrypted_wif", lambda: inst.create_new_encrypted_wif(wif)),
            ("create_new_encrypted_wif", lambda: inst.create_new_encrypted_wif(priv.hex(), "wif")),
            ("intermediate_code", lambda: B.intermediate_code(pw, 1, 1)), ("intermediate_code", lambda: B.intermediate_code(pw, 100000)), ("intermediate_code", lambda: B.intermediate_code(pw, owner_salt="zz")),
            ("intermediate_code", lambda: B.intermediate_code(pw, 100000, 4096, "00112233")), ("intermediate_code", lambda: B.intermediate_code(pw, owner_salt=b"123")),
            ("intermediate_code", lambda: B.intermediate_code(pw.encode("utf-8", "replace"))),
            ("wif functions", lambda: W.encode_wif(short_key)), ("wif functions", lambda: W.encode_wif(priv + priv[:1])), ("wif functions", lambda: W.encode_wif(priv.hex() + "0")),
            ("wif functions", lambda: W.encode_wif(priv.hex()[:-1])), ("wif functions", lambda: W.encode_wif(priv.hex()[:-1] + "g")), ("wif functions", lambda: W.encode_wif(short_key.hex())),
            ("wif functions", lambda: W.decode_wif(bad_wif, wp)), ("wif functions", lambda: W.decode_wif(other, wp)), ("wif functions", lambda: W.decode_wif(forged, wp)),
            ("wif functions", lambda: W.private_key_to_wif(priv, "wif ", cls, net)), ("wif functions", lambda: W.private_key_to_wif(priv.hex() + "00", wt, cls, net)),
            ("wif functions", lambda: W.wif_to_private_key(bad_wif, cls, net)), ("wif functions", lambda: W.get_wif_type(bad_wif, cls, net)), ("wif functions", lambda: W.get_wif_checksum(forged, cls, net)),
            ("wif functions", lambda: W.private_key_to_wif(priv, wt, cls, net)), ("wif functions", lambda: W.wif_to_private_key(wif, cls, net)),
            ("keys", lambda: P.from_bytes(short_key)), ("keys", lambda: P.from_bytes(priv + priv)), ("keys", lambda: P.from_bytes(big)), ("keys", lambda: P.from_bytes(priv).public_key().raw_compressed()),
            ("keys", lambda: api.secp.PublicKey.from_bytes(priv)), ("keys", lambda: api.addr.encode(priv)), ("keys", lambda: api.addr.encode(priv.hex())), ("keys", lambda: api.addr.decode(wif)),
            ("base58", lambda: api.b58.decode(bad_wif)), ("base58", lambda: api.b58.check_decode(bad_wif)), ("base58", lambda: api.b58.check_decode(pw)),
        ]
        secrets = pw_forms(pw) + key_secrets(priv, [wp, (wp + 1) % 256]) + [("private key", big.hex()[-24:]), ("WIF", ref.wif_encode(big, wp, comp)[-24:]), ("private key", short_key.hex())]
        if len(bad_wif) > 20:
            secrets += [("WIF", p) for p in pieces("WIF", bad_wif) if p in wif]    # an edit may put in anything, words of a message too
        for what, fn in (todo if api.kdf_mode == "stub" else rng.sample(todo, 6)):
            got, events = api.watch.run(fn)
            judge(what, got, events, secrets, obs)
        obs.nontrivial((wif, pw))
