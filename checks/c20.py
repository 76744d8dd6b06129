"""C20 - every supported coin network uses its published parameters."""
from lib import gen, ref, story
from lib.fw import Phase

PROP = "C20"
LEVEL = "exploration"
RULE = ("one case = one coin network (all 180 of the published table) with fresh keys: class, prefixes and alphabet, WIF functions, address, encryption, decryption, generation, confirmation and "
        "decryption of the generated key, all compared with the model fed with the published parameters; distinct = distinct (coin, network, key)")
ASSUMPTIONS = ["data/coins.json is the published table (README of the pinned commit, which agrees with its coin classes)"]
NEED = ("coin networks exercised", "networks compared with the published table", "results compared with the model")


def phases(tier):
    q = tier == "quick"
    return [Phase("all networks", "stub", 8, n=2 if q else 30),
            Phase("real scrypt", "real", 4 if q else 8, n=2 if q else 23, order=0, sample=True)]


def cases(phase, rng, shard, nshards, tier, api):
    pairs = [(c, n) for c in sorted(api.golden) for n in sorted(api.golden[c])]
    if phase.opts.get("sample"):
        rng2 = __import__("random").Random(api.seed)
        rng2.shuffle(pairs)
        pairs = pairs[shard::nshards][:phase.opts["n"]]
        rounds = 1
    else:
        pairs, rounds = pairs[shard::nshards], phase.opts["n"]
    for r in range(rounds):
        for coin, net in pairs:
            c = dict(coin=coin, net=net, inst=net, arg=rng.choice([None, net]), priv=gen.key(rng).hex(), comp=rng.random() < 0.5)
            c["pw"], c["kind"] = gen.passphrase(rng)
            c["lot"], c["seq"] = gen.lotseq(rng)
            c["salt"] = gen.data_form(rng, gen.salt(rng, 8 if c["lot"] is None else rng.choice([4, 8])))
            c["seed"] = gen.data_form(rng, gen.seed24(rng))
            yield c


def run(c, api, obs):
    coin, net, what = c["coin"], c["net"], "%s %s: " % (c["coin"], c["net"])
    wp, ap = api.golden[coin][net]
    cls = getattr(api.coins, coin, None)
    if cls is None or not isinstance(cls, type) or not issubclass(cls, api.coins.ICryptocurrency):
        obs.fail("the published coin %s is not available" % coin)
    table = cls.NETWORKS.get(net)
    if table is None:
        obs.fail("the published network %s of %s is not available" % (net, coin))
    if table.get("wif_prefix") != wp or table.get("address_prefix") != ap:
        obs.fail("%sparameters are %r, published are wif_prefix %#x, address_prefix %#x" % (what, table, wp, ap))
    obs.count("networks compared with the published table")
    own = ref.XRP_ALPHABET if coin == "Ripple" else ref.BTC_ALPHABET
    if (cls.ALPHABET or ref.BTC_ALPHABET) != own:
        obs.fail("%saddress alphabet is %r" % (what, cls.ALPHABET))
    inst, got = api.instance(coin, net, c["comp"]), None
    if getattr(inst, "alphabet", own) != own:
        obs.fail("%sthe instance's alphabet is %r" % (what, inst.alphabet))
    if coin == "Ripple" and api.ripple_alphabet() == ref.BTC_ALPHABET:
        obs.note("known:ripple", "addresses inside encrypt, create_new_encrypted_wif, confirm_code and decrypt of Ripple use the Bitcoin alphabet, not the coin's own")
    # WIF functions
    priv = bytes.fromhex(c["priv"])
    wt = "wif-compressed" if c["comp"] else "wif"
    pt = "compressed" if c["comp"] else "uncompressed"
    wif = ref.wif_encode(priv, wp, c["comp"])
    W = api.wif
    obs.equal(what + "private_key_to_wif", obs.call(W.private_key_to_wif, c["priv"], wt, cls, net), wif)
    obs.equal(what + "wif_to_private_key", obs.call(W.wif_to_private_key, wif, cls, net), c["priv"])
    obs.equal(what + "get_wif_type", obs.call(W.get_wif_type, wif, cls, net), wt)
    # addresses in the coin's own alphabet
    pub = ref.pubkey(priv, c["comp"])
    addr = ref.address(pub, ap, own)
    obs.equal(what + "P2PKHAddress.encode", obs.call(api.addr.encode, pub, address_prefix=table["address_prefix"], alphabet=inst.alphabet if hasattr(inst, "alphabet") else own,
                                                      public_key_type=pt), addr)
    obs.equal(what + "P2PKHAddress.decode", obs.call(api.addr.decode, addr, address_prefix=table["address_prefix"], alphabet=cls.ALPHABET or own), ref.hash160(pub).hex())
    # the operations
    enc, d, info = story.nonec_model(c, api)
    k = story.kw(c)
    obs.equal(what + "encrypt", obs.call(inst.encrypt, wif, c["pw"], **k), enc)
    obs.equal(what + "decrypt", obs.call(inst.decrypt, enc, c["pw"], detail=True, **k), d)
    obs.equal(what + "decrypt", obs.call(inst.decrypt, enc, c["pw"], **k), wif)
    inter, ii = story.inter_model(c, api)
    made, mi = story.create_model(c, api, inter)
    obs.equal(what + "create_new_encrypted_wif", obs.call(inst.create_new_encrypted_wif, inter, wt, gen.unform(c["seed"]), **k), made)
    obs.equal(what + "confirm_code", obs.call(inst.confirm_code, c["pw"], made["confirmation_code"], detail=True, **k), story.confirm_detail(c, made))
    obs.equal(what + "decrypt of a generated key", obs.call(inst.decrypt, made["encrypted_wif"], c["pw"], detail=True, **k), story.ec_detail(c, api, ii, made, mi))
    obs.count("coin networks exercised")
    obs.nontrivial((coin, net, c["priv"]))

