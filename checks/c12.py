"""C12 - Base58 and Base58Check are lossless and canonical."""
from lib import gen, mutate, ref
from lib.fw import Phase

PROP = "C12"
LEVEL = "exploration"
RULE = ("one case = one byte string and alphabet (encode, decode, check forms compared with the model) or one text (decoded or refused as the model says, and "
        "re-encoded to itself); distinct = distinct (bytes or text, alphabet)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements Base58 and Base58Check"]
NEED = ("results compared with the model", "refusals observed", "leading zeros", "empty", "Ripple alphabet", "shuffled alphabet", "text with foreign characters",
        "text round trip")


def phases(tier):
    q = tier == "quick"
    return [Phase("codec", "stub", 8, n=12000 if q else 100000),
            Phase("short strings", "stub", 8, n=0, short=True)]


def alphabet(rng):
    r = rng.random()
    if r < 0.5:
        return None
    if r < 0.6:
        return ref.BTC_ALPHABET
    if r < 0.85:
        return ref.XRP_ALPHABET
    a = list(ref.BTC_ALPHABET)
    if rng.random() < 0.5:                       # other symbols: any 58 printable ASCII characters
        a = rng.sample([chr(i) for i in range(33, 127)], 58)
    rng.shuffle(a)
    return "".join(a)


def cases(phase, rng, shard, nshards, tier, api):
    if phase.opts.get("short"):
        # exhaustively: all byte strings of one and two bytes, all texts of up to two characters (three in thorough)
        for i in range(256):
            if i % nshards == shard:
                yield dict(block=[bytes([i]).hex()] + [bytes([i, j]).hex() for j in range(256)], alpha=None)
        A = ref.BTC_ALPHABET + "0OIl "
        for i, x in enumerate(A):
            if i % nshards == shard:
                yield dict(texts=[x] + [x + y for y in A] + ([x + y + z for y in A for z in A] if tier == "thorough" else []), alpha=None)
        if shard == 0:
            yield dict(block=[""] + ["00" * k for k in range(1, 80)] + ["00" * k + "ff" for k in range(80)], alpha=None)
            yield dict(texts=[""] + ["1" * k for k in range(1, 120)] + ["1" * k + "2" for k in range(80)], alpha=None)
        return
    for _ in range(phase.opts["n"]):
        a = alphabet(rng)
        r = rng.random()
        if r < 0.6:
            n = rng.choice([0, 1, 2, 3, 4, 5, 8, 20, 21, 25, 31, 32, 33, 34, 37, 38, 39, 43, 51, 53, 55, 64, 65, 100, rng.randrange(300), rng.choice([255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 3000, 4096, 5000]) if rng.random() < 0.05 else 7])
            n = gen.number(rng, n, 0, 6000, 0.002, 0.03)
            b = gen.shaped(rng, n) if n > 3 else rng.randbytes(n)
            if rng.random() < 0.4:
                b = bytes(rng.choice([1, 1, 2, 3, 8, 40])) + b
            if rng.random() < 0.1:
                b = bytes([rng.choice([0x39, 0x3A, 57, 58, 59, 255])]) + bytes(n)       # around powers of 58 and 256
            yield dict(block=[b.hex()], alpha=a)
        else:
            A = a or ref.BTC_ALPHABET
            t = "".join(rng.choice(A) for _ in range(gen.number(rng, rng.choice([0, 1, 2, 5, 10, 33, 34, 51, 52, 58, 75, rng.randrange(200)]), 0, 4000, 0.002, 0.03)))
            if rng.random() < 0.4:
                t = A[0] * rng.randrange(1, 8) + t
            if rng.random() < 0.4:
                for _ in range(rng.choice([1, 1, 2])):
                    i = rng.randrange(len(t) + 1)
                    t = t[:i] + rng.choice(mutate.FOREIGN) + t[i + rng.randrange(2):]
            yield dict(texts=[t], alpha=a)


def run(c, api, obs):
    a = c["alpha"]
    kw = {} if a is None else {"alphabet": a}
    A = a or ref.BTC_ALPHABET
    obs.feature("default alphabet" if a is None else "Ripple alphabet" if a == ref.XRP_ALPHABET else
                "Bitcoin alphabet" if a == ref.BTC_ALPHABET else "shuffled alphabet")
    m = api.b58
    for h in c.get("block", ()):
        b = bytes.fromhex(h)
        if b[:1] == b"\0":
            obs.feature("leading zeros")
        if not b:
            obs.feature("empty")
        s = ref.b58encode(b, A)
        obs.equal("encode(%s)" % h, obs.call(m.encode, b, **kw), s)
        obs.equal("decode(%r)" % s, obs.call(m.decode, s, **kw), b)
        s = ref.b58check(b, A)
        obs.equal("check_encode(%s)" % h, obs.call(m.check_encode, b, **kw), s)
        obs.equal("check_decode(%r)" % s, obs.call(m.check_decode, s, **kw), b)
        raw = ref.b58decode(s, A)
        if len(c["block"]) == 1:
            for i in range(4):                         # every checksum byte counts
                bad = ref.b58encode(raw[:-4 + i] + bytes([raw[-4 + i] ^ (1 << (len(b) + i) % 8)]) + raw[len(raw) - 3 + i:], A)
                if ref.b58check_decode(bad, A) is None:
                    obs.refused("check_decode(%r), checksum byte %d changed" % (bad, i), obs.call(m.check_decode, bad, **kw), ValueError)
            if raw[:-4]:
                bad = ref.b58encode(bytes([raw[0] ^ 1]) + raw[1:], A)
                obs.refused("check_decode(%r), first byte changed" % bad, obs.call(m.check_decode, bad, **kw), ValueError)
            obs.refused("check_decode with a character doubled", obs.call(m.check_decode, s + s[-1], **kw), ValueError)
            obs.refused("check_decode with a leading zero symbol added", obs.call(m.check_decode, A[0] + s, **kw), ValueError)
        obs.nontrivial((b, A))
    for t in c.get("texts", ()):
        want = ref.b58decode(t, A)
        got = obs.call(m.decode, t, **kw)
        if want is None:
            obs.feature("text with foreign characters")
            obs.refused("decode(%r)" % t, got, ValueError)
            obs.refused("check_decode(%r)" % t, obs.call(m.check_decode, t, **kw), ValueError)
        else:
            obs.equal("decode(%r)" % t, got, want)
            obs.equal("encode(decode(%r))" % t, obs.call(m.encode, got[0], **kw), t)
            obs.feature("text round trip")
            if ref.b58check_decode(t, A) is None:
                obs.refused("check_decode(%r)" % t, obs.call(m.check_decode, t, **kw), ValueError)
        obs.nontrivial((t, A))
