"""C11 - WIF encoding and decoding are exact inverses on every network."""
from lib import gen, mutate, ref
from lib.fw import Phase

PROP = "C11"
LEVEL = "exploration"
RULE = ("one case = one (32-byte key, prefix or coin network): both encodings, decoding, and every accessor are compared with the model; "
        "distinct = distinct (key, prefix)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements Base58Check and WIF"]
NEED = ("results compared with the model", "refusals observed", "key starts with prefix bytes", "key ends with 01", "multi-byte prefix", "registered coin")


def phases(tier):
    q = tier == "quick"
    return [Phase("codec", "stub", 8, n=10000 if q else 80000)]


def cases(phase, rng, shard, nshards, tier, api):
    for i, (coin, net) in enumerate(api.pairs):
        if i % nshards == shard:
            for _ in range(3):
                yield dict(coin=coin, net=net, priv=gen.shaped(rng, 32).hex())
    for _ in range(phase.opts["n"]):
        k = rng.random()
        b = bytearray(gen.shaped(rng, 32) if rng.random() < 0.7 else gen.key(rng))
        if k < 0.4:
            coin, net = gen.coin_net(rng, api)
            c = dict(coin=coin, net=net)
            p = ref.pfx(api.prefixes(coin, net)[0])
        else:
            v = rng.choice([rng.randrange(256), rng.randrange(256), 0x80, 0, 1, 0xFF, rng.randrange(256, 65536), rng.randrange(1 << 16, 1 << 32)])
            c = dict(prefix=v)
            p = ref.pfx(v)
        r = rng.random()
        if r < 0.15:
            b[:len(p)] = p
        elif r < 0.3:
            b[-1] = 1
        elif r < 0.35:
            b[-2:] = b"\1\1"
        yield dict(c, priv=bytes(b).hex())


def run(c, api, obs):
    priv = bytes.fromhex(c["priv"])
    if "coin" in c:
        cls, net = api.coin(c["coin"]), c["net"]
        prefix = api.prefixes(c["coin"], net)[0]
        obs.feature("user-defined coin" if isinstance(c["coin"], dict) else "registered coin")
    else:
        prefix = c["prefix"]
        net = "somenet"
        cls = api.coin({"networks": {net: [prefix, 0]}})
    p = ref.pfx(prefix)
    if len(p) > 1:
        obs.feature("multi-byte prefix")
    if priv.startswith(p):
        obs.feature("key starts with prefix bytes")
    if priv[-1] == 1:
        obs.feature("key ends with 01")
    if priv[0] == 0:
        obs.feature("key starts with 00")
    W = api.wif
    want = (ref.wif_encode(priv, prefix, False), ref.wif_encode(priv, prefix, True))
    for form in (priv, priv.hex(), priv.hex().upper()):
        obs.equal("encode_wif(%s key)" % type(form).__name__, obs.call(W.encode_wif, form, prefix), want)
    if prefix == 0x80:
        obs.equal("encode_wif(default prefix)", obs.call(W.encode_wif, priv), want)
    for i, wt in enumerate(("wif", "wif-compressed")):
        s = want[i]
        chk = ref.b58decode(s)[-4:]
        got = obs.call(W.private_key_to_wif, private_key=priv if i else priv.hex(), wif_type=wt, cryptocurrency=cls, network=net)
        obs.equal("private_key_to_wif(%s)" % wt, got, s)
        # a WIF is unambiguous unless another prefix reading exists; with the right prefix it always is
        obs.equal("decode_wif", obs.call(W.decode_wif, s, wif_prefix=prefix), (priv, wt, chk))
        obs.equal("wif_to_private_key", obs.call(W.wif_to_private_key, s, cryptocurrency=cls, network=net), priv.hex())
        obs.equal("get_wif_type", obs.call(W.get_wif_type, wif=s, cryptocurrency=cls, network=net), wt)
        obs.equal("get_wif_checksum", obs.call(W.get_wif_checksum, s, cls, net), chk.hex())
        if prefix == 0x80:
            obs.equal("wif_to_private_key(defaults)", obs.call(W.wif_to_private_key, s), priv.hex())
            obs.equal("get_wif_type(defaults)", obs.call(W.get_wif_type, s), wt)
            obs.equal("get_wif_checksum(defaults)", obs.call(W.get_wif_checksum, s), chk.hex())
            if i:
                obs.equal("private_key_to_wif(defaults)", obs.call(W.private_key_to_wif, priv), s)
    n = 1 + priv[5] % 40
    if n == 32:
        n = 31
    for bad in (priv[:n] if n < 32 else priv + priv[:n - 32], priv + b"\1", priv[:-1]):
        obs.refused("encode_wif of %d bytes" % len(bad), obs.call(W.encode_wif, bad, prefix), api.REFUSED)
        obs.refused("encode_wif of %d hex digits" % (2 * len(bad)), obs.call(W.encode_wif, bad.hex(), prefix), api.REFUSED)
        obs.refused("private_key_to_wif of %d bytes" % len(bad), obs.call(W.private_key_to_wif, bad, "wif", cls, net), api.REFUSED)
    obs.nontrivial((c["priv"], prefix))
