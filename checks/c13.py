"""C13 - P2PKH addresses are standard and decode to the same public key hash."""
from lib import gen, mutate, ref
from lib.fw import Phase

PROP = "C13"
LEVEL = "exploration"
RULE = ("one case = one (public key, form, prefix, alphabet): encoding from bytes, hex and object compared with the model, decoding compared with HASH160, "
        "other prefixes, other alphabets and damaged addresses refused; distinct = distinct (key, form, prefix, alphabet)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements HASH160, Base58Check and SEC1 encodings"]
NEED = ("results compared with the model", "refusals observed", "uncompressed", "compressed", "Ripple alphabet", "multi-byte prefix", "hash starts with 00", "another alphabet", "arbitrary alphabet", "subclass with its own table")


def phases(tier):
    q = tier == "quick"
    return [Phase("codec", "stub", 8, n=3000 if q else 20000),
            Phase("codec, no native RIPEMD-160", "stub", 2, native_ripemd=False, n=200 if q else 4000)]


def cases(phase, rng, shard, nshards, tier, api):
    for i, (coin, net) in enumerate(api.pairs):
        if i % nshards == shard:
            yield dict(priv=gen.key(rng).hex(), prefix=api.golden[coin][net][1], comp=i % 2 == 0, alpha=None, dmg=rng.randrange(1 << 30), other=rng.randrange(256), cls=False)
    for _ in range(phase.opts["n"]):
        p = rng.choice([0, None, rng.randrange(256), rng.randrange(256), rng.randrange(256, 65536), rng.randrange(1 << 16, 1 << 24), rng.randrange(1 << 24, 1 << 32), 255, 256, 65535, 65536])
        p = gen.number(rng, p, 0, 1 << 40)
        o = rng.choice([rng.randrange(256), (p or 0) ^ 1, ((p or 0) << 8), (p or 0) >> 8, (p or 0) ^ 0x100, 0])
        yield dict(priv=gen.key(rng).hex(), prefix=p, comp=rng.choice([True, False, None]), alpha=rng.choice([None, None, "B", "X", "S"]),
                   dmg=rng.randrange(1 << 30), other=o, cls=rng.random() < 0.2)


def run(c, api, obs):
    import random
    rng = random.Random(c["dmg"])
    priv = bytes.fromhex(c["priv"])
    pt = ref.ec_mul(int.from_bytes(priv, "big"))
    comp = True if c["comp"] is None else c["comp"]
    prefix = 0 if c["prefix"] is None else c["prefix"]
    some = "".join(rng.sample([chr(i) for i in range(33, 127)], 58))       # any 58 printable ASCII characters
    A = {None: ref.BTC_ALPHABET, "B": ref.BTC_ALPHABET, "X": ref.XRP_ALPHABET, "S": some}[c["alpha"]]
    obs.feature("compressed" if comp else "uncompressed", {"X": "Ripple alphabet", "S": "arbitrary alphabet"}.get(c["alpha"], "Bitcoin alphabet"))
    if prefix > 255:
        obs.feature("multi-byte prefix")
    h = ref.hash160(ref.ser_pub(pt, comp))
    if h[0] == 0:
        obs.feature("hash starts with 00")
    kw = {}
    klass = api.addr
    if c["cls"]:                                      # a subclass with a prefix and an alphabet of its own
        own = rng.choice([0x30, 0x1E, 0x1CB8, 1, rng.randrange(1, 256), rng.randrange(256, 65536)])
        own_a = rng.choice([ref.BTC_ALPHABET, ref.XRP_ALPHABET, some])
        klass = type("OwnAddress", (api.addr,), dict([("address_prefix", own)] * rng.randrange(2) + [("alphabet", own_a)] * rng.randrange(2)))
        if c["prefix"] is None:
            prefix = klass.address_prefix
        if c["alpha"] is None:
            A = klass.alphabet
        obs.feature("subclass with its own table")
    addr = ref.b58check(ref.pfx(prefix) + h, A)
    if c["prefix"] is not None:
        kw["address_prefix"] = prefix
    if c["alpha"] is not None:
        kw["alphabet"] = A
    ekw = dict(kw)
    if c["comp"] is not None:
        ekw["public_key_type"] = "compressed" if comp else "uncompressed"
    E, D = klass.encode, klass.decode
    cb, ub = ref.ser_pub(pt, True), ref.ser_pub(pt, False)
    for name, form in (("compressed bytes", cb), ("uncompressed bytes", ub), ("compressed hex", cb.hex()), ("uncompressed hex", ub.hex().upper())):
        obs.equal("encode(%s)" % name, obs.call(E, form, **ekw), addr)
    pk, e = obs.call(api.secp.PublicKey.from_bytes, cb)
    obs.equal("encode(PublicKey object)", obs.call(E, public_key=pk, **ekw), addr)
    obs.equal("decode", obs.call(D, addr, **kw), h.hex())
    # other prefixes
    o = c["other"]
    if o != prefix:
        obs.refused("decode with prefix %#x instead of %#x" % (o, prefix), obs.call(D, addr, **dict(kw, address_prefix=o)), api.REFUSED)
    # other alphabet
    near = list(A)                                   # the alphabet with one used symbol replaced, or two swapped
    i, j = near.index(rng.choice(addr)), rng.randrange(58)
    if rng.random() < 0.5:
        near[i] = rng.choice([ch for ch in map(chr, range(33, 127)) if ch not in A])
    else:
        near[i], near[j] = near[j], near[i]
    p = ref.pfx(prefix)
    for B in (ref.XRP_ALPHABET, ref.BTC_ALPHABET, some, "".join(near)):
        got = ref.b58check_decode(addr, B)
        if got is None or len(got) != 20 + len(p) or not got.startswith(p):
            obs.refused("decode of %r with the alphabet %s instead of %s" % (addr, B, A), obs.call(D, addr, **dict(kw, alphabet=B)), api.REFUSED)
            obs.feature("another alphabet")
    # damage
    for _ in range(3):
        kind, t = mutate.edits(rng, addr)
        raw = ref.b58check_decode(t, A)
        p = ref.pfx(prefix)
        if raw is None or len(raw) != 20 + len(p) or not raw.startswith(p):
            obs.refused("decode of a damaged address (%s: %r)" % (kind, t), obs.call(D, t, **kw), api.REFUSED)
    for body in (h[:-1], h + b"\0", b"\0" + h, h[:19 - rng.randrange(19)], b""):
        t = ref.b58check(ref.pfx(prefix) + body, A)
        obs.refused("decode of an address with %d hash bytes" % len(body), obs.call(D, t, **kw), api.REFUSED)
    # a key that is no key
    bads = [cb[:-1], cb + b"\0", b"\x05" + cb[1:], b"\x04" + cb[1:], ub[:-1], b"\x02" + ub[1:], ub[:-1] + bytes([ub[-1] ^ 1]), b"\x02" + b"\xff" * 32,
            bytes([6 + (1 - (pt[1] & 1))]) + ub[1:], bytes([rng.choice([0, 1, 5, 8, 0x84, 0xFF])]) + ub[1:], b"\6" + cb[1:], b"\7" + cb[1:], b"\0" + ub[1:], ub + b"\0", b"\4" + ub[33:] + ub[1:33], b"\4" + bytes(64), cb[1:], b"\0"]
    for bad in rng.sample(bads, 4):
        if ref.parse_pub(bad) is None and not (len(bad) == 64 and ref.on_curve(int.from_bytes(bad[:32], "big"), int.from_bytes(bad[32:], "big"))):
            obs.refused("encode of %d bytes that are no public key (%s)" % (len(bad), bad.hex()), obs.call(E, bad, **ekw), api.REFUSED)
            obs.refused("encode of %d hex digits that are no public key" % (2 * len(bad)), obs.call(E, bad.hex(), **ekw), api.REFUSED)
            obs.count("things that are no key refused")
    # hybrid encodings, where they are taken, name the same key
    got = obs.call(E, bytes([6 + (pt[1] & 1)]) + ub[1:], **ekw)
    if got[1] is None:
        obs.equal("encode(hybrid bytes)", got, addr)
    obs.nontrivial((c["priv"], comp, prefix, A))
