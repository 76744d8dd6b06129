"""C16 - byte, integer and hex conversions are lossless."""
from lib import gen
from lib.fw import Phase

PROP = "C16"
LEVEL = "exploration"
RULE = ("one case = one integer with width, byte order and signedness, or one byte string / text, through the conversion helpers, judged by positional arithmetic "
        "written out in the check; distinct = distinct arguments")
ASSUMPTIONS = ["signed integers without a width and a width of zero are left unspecified"]
NEED = ("results compared with the model", "refusals observed", "minimal width", "given width", "signed", "little endian", "does not fit", "invalid hex", "empty")


def phases(tier):
    q = tier == "quick"
    return [Phase("helpers", "stub", 8, n=60000 if q else 400000)]


def cases(phase, rng, shard, nshards, tier, api):
    yield dict(empty=True)
    for v in range(shard, 70000, nshards):
        yield dict(i=v, w=None, e="big", s=False)
    for bits in range(shard, 600, nshards):
        for v in ((1 << bits) - 1, 1 << bits, (1 << bits) + 1):
            yield dict(i=v, w=None, e=rng.choice(["big", "little"]), s=False)
            for w in {max(1, (bits + 7) // 8 - 1), (bits + 7) // 8 or 1, bits // 8 + 1, 40}:
                yield dict(i=v, w=w, e=rng.choice(["big", "little"]), s=rng.random() < 0.4)
                yield dict(i=-v, w=w, e=rng.choice(["big", "little"]), s=True)
    for _ in range(phase.opts["n"]):
        r = rng.random()
        if r < 0.5:
            v = rng.getrandbits(rng.choice([1, 7, 8, 9, 15, 16, 17, 31, 32, 64, 127, 128, 248, 255, 256, 257, 500]))
            s = rng.random() < 0.3
            if s and rng.random() < 0.5:
                v = -v
            w = rng.choice([None, None, 1, 2, 3, 4, 8, 16, 32, 33, (v.bit_length() + 7) // 8 or 1])
            v = gen.number(rng, v, 0, None, 0.02, 0.2)
            w = gen.number(rng, w, 1, 600, 0.01, 0.1)
            if s and w is None:
                w = v.bit_length() // 8 + 1
            yield dict(i=v, w=w, e=rng.choice(["big", "little", None]), s=s)
        elif r < 0.8:
            n = rng.choice([1, 2, 3, 4, 8, 16, 20, 32, 33, 64, rng.randrange(1, 200)])
            n = gen.number(rng, n, 1, 6000, 0.005, 0.1)
            b = gen.shaped(rng, n) if n > 3 else rng.randbytes(n)
            yield dict(b=b.hex(), s=rng.random() < 0.3, e=rng.choice(["big", "little"]))
        else:
            t = gen.passphrase(rng)[0] if rng.random() < 0.6 else "".join(rng.choice("0123456789abcdefABCDEF ghxX-") for _ in range(rng.randrange(1, 20)))
            yield dict(t=t)


def value(b, e, signed):
    seq = b if e == "big" else b[::-1]
    v = 0
    for x in seq:
        v = v * 256 + x
    if signed and seq and seq[0] & 0x80:
        v -= 256 ** len(seq)
    return v


def layout(v, w, e):
    v %= 256 ** w
    out = []
    for _ in range(w):
        v, d = divmod(v, 256)
        out.append(d)
    return bytes(out if e == "little" else out[::-1])


def hexof(b):
    return "".join("0123456789abcdef"[x >> 4] + "0123456789abcdef"[x & 15] for x in b)


HEXD = set("0123456789abcdefABCDEF")


def run(c, api, obs):
    U = api.utils
    if "empty" in c:
        for form in (b"", ""):
            obs.equal("get_bytes(%r)" % form, obs.call(U.get_bytes, form), b"")
            obs.equal("get_bytes(%r, unhexlify=False)" % form, obs.call(U.get_bytes, form, unhexlify=False), b"")
            obs.equal("bytes_to_string(%r)" % form, obs.call(U.bytes_to_string, form), "")
        obs.equal("bytes_reverse(b'')", obs.call(U.bytes_reverse, b""), b"")
        obs.equal("bytes_to_integer(b'')", obs.call(U.bytes_to_integer, b""), 0)
        obs.feature("empty")
        obs.nontrivial("empty")
        return
    if "i" in c:
        v, w, e, s = c["i"], c["w"], c["e"] or "big", c["s"]
        kw = {}
        if c["e"]:
            kw["endianness"] = e
        if s:
            kw["signed"] = True
            obs.feature("signed")
        if e == "little":
            obs.feature("little endian")
        if w is None:
            n = 1
            while v >= 256 ** n:
                n += 1
            obs.feature("minimal width")
            got = obs.call(U.integer_to_bytes, v, **kw)
        else:
            n = w
            obs.feature("given width")
            got = obs.call(U.integer_to_bytes, v, w, **kw)
        lo, hi = (-(256 ** n) // 2, 256 ** n // 2 - 1) if s else (0, 256 ** n - 1)
        if not lo <= v <= hi:
            obs.feature("does not fit")
            obs.refused("integer_to_bytes(%d, %r, %r)" % (v, w, kw), got, (OverflowError, ValueError, api.Error))
        else:
            want = layout(v, n, e)
            obs.equal("integer_to_bytes(%d, %r, %r)" % (v, w, kw), got, want)
            obs.equal("bytes_to_integer of it", obs.call(U.bytes_to_integer, got[0], **kw), v)
        obs.nontrivial((v, w, e, s))
    elif "b" in c:
        b = bytes.fromhex(c["b"])
        h = hexof(b)
        obs.equal("bytes_to_integer", obs.call(U.bytes_to_integer, b, endianness=c["e"], signed=c["s"]), value(b, c["e"], c["s"]))
        obs.equal("bytes_to_integer (defaults)", obs.call(U.bytes_to_integer, b), value(b, "big", False))
        obs.equal("bytes_to_string(bytes)", obs.call(U.bytes_to_string, b), h)
        obs.equal("get_bytes(bytes)", obs.call(U.get_bytes, b), b)
        obs.equal("get_bytes(bytes, unhexlify=False)", obs.call(U.get_bytes, b, unhexlify=False), b)
        obs.equal("get_bytes(hex)", obs.call(U.get_bytes, h), b)
        obs.equal("get_bytes(upper-case hex)", obs.call(U.get_bytes, h.upper()), b)
        obs.equal("get_bytes(hex, unhexlify=False)", obs.call(U.get_bytes, h, unhexlify=False), h.encode())
        obs.equal("bytes_to_string(hex)", obs.call(U.bytes_to_string, h), h)
        obs.equal("bytes_reverse", obs.call(U.bytes_reverse, b), bytes(b[len(b) - 1 - i] for i in range(len(b))))
        # odd number of digits is no byte string
        obs.feature("invalid hex")
        obs.refused("get_bytes(odd hex)", obs.call(U.get_bytes, h[:-1] if len(h) > 2 else h + "0"), api.REFUSED)
        obs.nontrivial(("b", b, c["e"], c["s"]))
    else:
        t = c["t"]
        if not t:
            return
        obs.equal("get_bytes(text, unhexlify=False)", obs.call(U.get_bytes, t, unhexlify=False), t.encode("utf-8"))
        clean = set(t) <= HEXD
        if clean and len(t) % 2 == 0:
            want = bytes(int(t[i:i + 2], 16) for i in range(0, len(t), 2))
            obs.equal("get_bytes(text that is hex)", obs.call(U.get_bytes, t), want)
        elif not set(t) <= HEXD | set(" \t\n\r\x0b\x0c") or (clean and len(t) % 2):
            obs.feature("invalid hex")
            obs.refused("get_bytes(%r)" % t, obs.call(U.get_bytes, t), api.REFUSED)
            obs.equal("bytes_to_string(text)", obs.call(U.bytes_to_string, t), hexof(t.encode("utf-8")))
        obs.nontrivial(("t", t))
