"""C14 - hash functions equal the published standards for every input."""
import hashlib

from lib import gen, ref
from lib.fw import Phase

PROP = "C14"
LEVEL = "exploration"
RULE = ("one case = one message, given as bytes and as hex, through sha256, double_sha256, ripemd160, hash160 and get_checksum, compared with hashlib's SHA-256 and "
        "the independent RIPEMD-160 of lib/ref.py; distinct = distinct (message, native RIPEMD-160 available or not)")
ASSUMPTIONS = ["hashlib's SHA-256 and lib/ref.py's RIPEMD-160 (checked against published digests and, where present, OpenSSL) are right"]
NEED = ("results compared with the model", "native RIPEMD-160 hidden", "native RIPEMD-160 listed but refused", "native RIPEMD-160 as on this platform", "length 55 mod 64", "length 56 mod 64", "length 63 mod 64", "length 0 mod 64", "more than 2 MiB")


def _native():
    try:
        return hashlib.new("ripemd160").copy
    except ValueError:
        return None


NATIVE = _native()                       # taken before any phase hides it


def long_ripemd160(msg):
    """for messages of megabytes, where the model takes too long"""
    if NATIVE is None:
        return ref.ripemd160(msg)
    h = NATIVE()
    h.update(msg)
    return h.digest()


def phases(tier):
    q = tier == "quick"
    return [Phase("platform's RIPEMD-160", "stub", 3, n=2500 if q else 60000),
            Phase("fallback RIPEMD-160", "stub", 5, native_ripemd=False, n=2500 if q else 60000),
            Phase("native RIPEMD-160 listed but refused", "stub", 2, native_ripemd="listed", n=500 if q else 10000)]


def cases(phase, rng, shard, nshards, tier, api):
    for n in range(shard, 260 if tier == "quick" else 1100, nshards):          # every length, three contents
        for kind in range(3):
            yield dict(msg=(b"\xff" * n if kind == 0 else b"\0" * n if kind == 1 else rng.randbytes(n)).hex())
    for n in (511, 512, 513, 1000, 4095, 4096, 8191, 65535, 65536, 65537):
        yield dict(msg=rng.randbytes(n).hex() if n < 5000 else None, big=n, byte=rng.randrange(256))
    if tier == "thorough" and shard == 0:
        yield dict(msg=None, big=(1 << 29) // 8 // 16, byte=0x61)
    if shard == 0:
        n = (2 << 20) + rng.choice([0, 1, 55, 64, 12345])
        if phase.native_ripemd is not True:
            n = gen.number(rng, n, 200000, 3 << 20, 0, 0.7)
        yield dict(msg=None, big=n, byte=rng.randrange(256), long=True)
        if tier == "thorough":
            yield dict(msg=None, big=(4 << 20) + 1, byte=0, long=True)
    for _ in range(phase.opts["n"]):
        n = rng.choice([0, 1, 20, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, rng.randrange(200), rng.randrange(200)])
        n = gen.number(rng, n, 0, 100000, 0.005, 0.1)
        yield dict(msg=(gen.shaped(rng, n) if n > 3 else rng.randbytes(n)).hex())


def run(c, api, obs):
    msg = bytes.fromhex(c["msg"]) if c["msg"] is not None else bytes([c["byte"]]) * c["big"]
    obs.feature({True: "native RIPEMD-160 as on this platform", False: "native RIPEMD-160 hidden", "listed": "native RIPEMD-160 listed but refused"}[api.phase.native_ripemd], "length %d mod 64" % (len(msg) % 64))
    C = api.crypto
    try:
        from bip38.libs.ripemd160 import ripemd160 as fallback
    except ImportError:
        fallback = None
    if c.get("long"):
        obs.feature("more than 2 MiB" if len(msg) >= 2 << 20 else "long")
        want = long_ripemd160(msg)
        if NATIVE is not None and long_ripemd160(msg[:100]) != ref.ripemd160(msg[:100]):
            raise RuntimeError("OpenSSL and the model disagree on RIPEMD-160")
        if api.phase.native_ripemd is True:
            obs.equal("sha256(%d bytes)" % len(msg), obs.call(C.sha256, msg), ref.sha256(msg))
            obs.equal("get_checksum(%d bytes)" % len(msg), obs.call(C.get_checksum, msg), ref.sha256d(msg)[:4])
            obs.equal("hash160(%d bytes)" % len(msg), obs.call(C.hash160, msg), ref.hash160(msg))
        obs.equal("ripemd160(%d bytes)" % len(msg), obs.call(C.ripemd160, msg), want)
        if fallback is not None and api.phase.native_ripemd is True:
            obs.equal("fallback ripemd160(%d bytes)" % len(msg), obs.call(fallback, msg), want)
        obs.nontrivial((len(msg), msg[0], api.phase.native_ripemd))
        return
    s = ref.sha256(msg)
    d = ref.sha256(s)
    r = ref.ripemd160(msg)
    h = ref.ripemd160(s)
    for name, want in (("sha256", s), ("double_sha256", d), ("ripemd160", r), ("hash160", h), ("get_checksum", d[:4])):
        f = getattr(C, name)
        obs.equal("%s(%d bytes)" % (name, len(msg)), obs.call(f, msg), want)
        if len(msg) < 300 or len(msg) % 7 == 0 and len(msg) < 9000:
            obs.equal("%s(hex of %d bytes)" % (name, len(msg)), obs.call(f, msg.hex()), want)
            if name in ("ripemd160", "sha256"):
                obs.equal("%s(upper-case hex)" % name, obs.call(f, msg.hex().upper()), want)
    if fallback is not None:
        obs.equal("fallback ripemd160(%d bytes)" % len(msg), obs.call(fallback, msg), r)
    obs.nontrivial((msg, api.phase.native_ripemd))
