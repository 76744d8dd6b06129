"""C10 - coins and networks are never confused."""
import gc
import random

from lib import gen, ref, story
from lib.fw import Phase

PROP = "C10"
LEVEL = "exploration"
RULE = ("one case = one ordered pair of coin networks (A the string was made for, B the operation is asked to use), with B as the instance's network or named in "
        "the call; results have to be B's by the model, strings of A with other prefixes have to be refused; distinct = distinct (A, B, operation)")
ASSUMPTIONS = ["registered prefixes are those of the published table (data/coins.json)",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)"]
NEED = ("WIF of another prefix refused", "ciphertext of another address prefix refused", "confirmation code of another address prefix refused",
        "unknown network refused", "class that is not a coin refused", "user-defined coin", "network named, overrides instance",
        "same WIF prefix, other address prefix", "class at the address of a former one")


def phases(tier):
    q = tier == "quick"
    return [Phase("pairs", "stub", 8, every=5 if q else 1, second=1 if q else 3),
            Phase("user-defined coins", "stub", 8, n=350 if q else 6000),
            Phase("coin classes that come and go", "stub", 2, n=12 if q else 250, transient=True),
            Phase("unknown networks and classes", "stub", 2, bad=True)]


BAD_NETS = ["Mainnet", "MAINNET", " mainnet", "mainnet ", "main", "test", "testnet3", "testnet4", "regtest", "signet", "bitcoin", "x", "mainnet\n", "wif_prefix"]


def cases(phase, rng, shard, nshards, tier, api):
    if phase.opts.get("bad"):
        for i, (coin, net) in enumerate(api.pairs):
            if i % nshards == shard and (tier == "thorough" or i % 4 == 0 or coin in ("Bitcoin", "Litecoin")):
                for bad in BAD_NETS + (gen.lex().strs[:80] if gen.lex().new else []) + [7, b"mainnet", ("mainnet",)]:
                    if bad not in api.golden[coin]:
                        yield dict(badnet=[coin, net, bad.decode() if isinstance(bad, bytes) else bad], as_bytes=isinstance(bad, bytes))
        for kind in ("str", "dict", "object", "lookalike", "exception", "bip38", "metaclass"):
            yield dict(badclass=kind)
        return
    if phase.opts.get("transient"):
        for _ in range(phase.opts["n"]):
            yield dict(transient=rng.randrange(1 << 40))
        return
    if "every" in phase.opts:
        idx = 0
        for a in api.pairs:
            for b in api.pairs:
                idx += 1
                if idx % nshards != shard:
                    continue
                same_coin = a[0] == b[0]
                wa, aa = api.golden[a[0]][a[1]]
                wb, ab = api.golden[b[0]][b[1]]
                close = same_coin or (wa == wb and aa != ab) or (wa != wb and aa == ab) or (aa > 255) != (ab > 255)
                if not (same_coin or (idx // nshards) % phase.opts["every"] == 0 or (close and (idx // nshards) % 3 == 0)):
                    continue
                for _ in range(phase.opts["second"]):
                    yield pair(rng, list(a), list(b), api)
        return
    for _ in range(phase.opts["n"]):
        coin, net = gen.user_coin(rng)
        coin2, net2 = gen.user_coin(rng)
        k = rng.randrange(4)
        a = [coin, net]
        if k == 0:
            b = [coin, rng.choice(list(coin["networks"]))]
        elif k == 1:
            b = [coin2, net2]
        elif k == 2:
            # prefixes that differ in one byte of several, or in width
            w, ad = coin["networks"][net]
            near = {"networks": {"mainnet": [rng.choice([w, w ^ 1, (w << 8) | (w & 255), w >> 8 or 1]), rng.choice([ad, ad ^ 1, ad ^ (1 << 8), (ad << 8) | 1, ad >> 8])]}}
            b = [near, "mainnet"]
        else:
            b = list(rng.choice(api.pairs))
        if rng.random() < 0.3:
            a, b = b, a
        yield pair(rng, a, b, api)


def pair(rng, a, b, api):
    nets = list(b[0]["networks"]) if isinstance(b[0], dict) else sorted(api.golden[b[0]])
    if rng.random() < 0.5:
        how = dict(inst=b[1], arg=rng.choice([None, b[1]]))
    else:
        how = dict(inst=rng.choice(nets), arg=b[1])
    lot, seq = gen.lotseq(rng)
    return dict(a=a, b=b, priv=gen.key(rng).hex(), comp=rng.random() < 0.5, pw=gen.passphrase(rng, "ascii")[0], lot=lot, seq=seq,
                salt={"hex": gen.salt(rng).hex()}, seed={"hex": gen.seed24(rng).hex()}, ops=rng.choice(["encrypt decrypt", "encrypt decrypt", "ec confirm"]), **how)


def run(c, api, obs):
    if "badnet" in c:
        return bad_network(c, api, obs)
    if "badclass" in c:
        return bad_class(c, api, obs)
    if "transient" in c:
        return transient(c, api, obs)
    a, b = c["a"], c["b"]
    wa, aa = api.prefixes(*a)
    wb, ab = api.prefixes(*b)
    ca = dict(c, coin=a[0], net=a[1])
    cb = dict(c, coin=b[0], net=b[1])
    alpha_same = api.alphabet(a[0]) == api.alphabet(b[0])
    inst = api.instance(b[0], c["inst"])
    kw = {} if c["arg"] is None else {"network": c["arg"]}
    obs.feature("network from instance" if c["arg"] is None else
                ("network named, same as instance" if c["arg"] == c["inst"] else "network named, overrides instance"))
    if isinstance(a[0], dict) or isinstance(b[0], dict):
        obs.feature("user-defined coin")
    if wa == wb and aa != ab:
        obs.feature("same WIF prefix, other address prefix")
    if wa != wb and aa == ab:
        obs.feature("same address prefix, other WIF prefix")
    if a == b:
        obs.feature("same network")
    obs.nontrivial((str(a), str(b), c["ops"]))
    priv = bytes.fromhex(c["priv"])
    if "encrypt" in c["ops"]:
        wif = ref.wif_encode(priv, wa, c["comp"])
        got = obs.call(inst.encrypt, wif, c["pw"], **kw)
        d = ref.wif_decode(wif, wb)
        if d is None:
            obs.refused("encrypt of a WIF of %s on %s" % (a, b), got, api.REFUSED)
            obs.count("WIF of another prefix refused")
        elif d == (priv, c["comp"]) or wa != wb:
            if 0 < int.from_bytes(d[0], "big") < ref.N:
                want = ref.encrypt(d[0], d[1], ab, c["pw"], api.kdf, api.alphabet(b[0]))[0]
                obs.equal("encrypt of a WIF of %s on %s" % (a, b), got, want)
        enc, detail, _ = story.nonec_model(ca, api)
        got = obs.call(inst.decrypt, enc, c["pw"], detail=True, **kw)
        if aa != ab or not alpha_same:
            obs.refused("decrypt of a string of %s on %s" % (a, b), got, api.exc.PassphraseError)
            obs.count("ciphertext of another address prefix refused")
        else:
            obs.equal("decrypt of a string of %s on %s" % (a, b), got, story.nonec_model(cb, api)[1])
        return
    inter, ii = story.inter_model(ca, api)
    made, info = story.create_model(ca, api, inter)
    mine, minfo = story.create_model(cb, api, inter)
    obs.equal("create_new_encrypted_wif on %s" % b,
              obs.call(inst.create_new_encrypted_wif, inter, "wif-compressed" if c["comp"] else "wif", c["seed"]["hex"], **kw), mine)
    got = obs.call(inst.decrypt, made["encrypted_wif"], c["pw"], detail=True, **kw)
    got2 = obs.call(inst.confirm_code, c["pw"], made["confirmation_code"], detail=True, **kw)
    if aa != ab or not alpha_same:
        obs.refused("decrypt of an EC key of %s on %s" % (a, b), got, api.exc.PassphraseError)
        obs.refused("confirm_code of a code of %s on %s" % (a, b), got2, api.exc.PassphraseError)
        obs.count("confirmation code of another address prefix refused")
    else:
        obs.equal("decrypt of an EC key of %s on %s" % (a, b), got, story.ec_detail(cb, api, ii, mine, minfo))
        obs.equal("confirm_code of a code of %s on %s" % (a, b), got2, story.confirm_detail(cb, mine))


def bad_network(c, api, obs):
    coin, net, bad = c["badnet"]
    if c.get("as_bytes"):
        bad = bad.encode()
    bad = tuple(bad) if isinstance(bad, list) else bad
    kinds = api.exc.NetworkError
    cls = api.coin(coin)
    wp, ap = api.golden[coin][net]
    obs.refused("BIP38(%s, network=%r)" % (coin, bad), obs.call(api.BIP38, cls, bad), kinds)
    obs.refused("BIP38(%s, network=%r)" % (coin, bad), obs.call(api.BIP38, cryptocurrency=cls, network=bad), kinds)
    inst = api.instance(coin, net)
    priv = bytes(range(7, 39))
    pw = "network"
    wif = ref.wif_encode(priv, wp, True)
    enc = ref.encrypt(priv, True, ap, pw, api.kdf, api.alphabet(coin))[0]
    inter = ref.intermediate(pw, b"saltsalt", None, None, api.kdf)[0]
    made = ref.create(inter, True, b"s" * 24, ap, api.kdf, api.alphabet(coin))[0]
    obs.refused("encrypt(network=%r)" % (bad,), obs.call(inst.encrypt, wif, pw, network=bad), kinds)
    obs.refused("create(network=%r)" % (bad,), obs.call(inst.create_new_encrypted_wif, inter, "wif", b"s" * 24, network=bad), kinds)
    obs.refused("confirm(network=%r)" % (bad,), obs.call(inst.confirm_code, pw, made["confirmation_code"], network=bad), kinds)
    obs.refused("decrypt(network=%r)" % (bad,), obs.call(inst.decrypt, made["encrypted_wif"], pw, network=bad), kinds)
    obs.refused("decrypt(network=%r)" % (bad,), obs.call(inst.decrypt, enc, pw, network=bad), kinds)
    obs.count("unknown network refused")
    obs.nontrivial(("bad network", coin, net, str(bad)))


def bad_class(c, api, obs):
    k = c["badclass"]
    nets = {"mainnet": {"wif_prefix": 0x80, "address_prefix": 0}}
    cls = dict(str=str, dict=dict, object=object, exception=ValueError, bip38=api.BIP38,
               lookalike=type("Bitcoin", (), {"NETWORKS": nets, "ALPHABET": None}),
               metaclass=type("Coin", (dict,), {"NETWORKS": nets, "ALPHABET": None}))[k]
    for net in ("mainnet", "testnet"):
        obs.refused("BIP38(%s)" % k, obs.call(api.BIP38, cls, net), api.exc.CryptocurrencyError)
    obs.count("class that is not a coin refused")
    obs.nontrivial(("bad class", k))


def transient(c, api, obs):
    """Coin classes and instances made, used and dropped, so that later ones take the places of former ones."""
    rng = random.Random(c["transient"])
    ids = set()
    nets = ["mainnet", "testnet"]
    for _ in range(25):
        table = {n: {"wif_prefix": rng.randrange(1, 256), "address_prefix": rng.randrange(256)} for n in nets}
        cls = type("Coin", (api.coins.ICryptocurrency,), {"NETWORKS": table})
        if id(cls) in ids:
            obs.feature("class at the address of a former one")
        ids.add(id(cls))
        inst = api.BIP38(cls, rng.choice(nets))
        net = rng.choice(nets)
        wp, ap = table[net]["wif_prefix"], table[net]["address_prefix"]
        priv, comp, pw = gen.key(rng), rng.random() < 0.5, "come and go"
        wif = ref.wif_encode(priv, wp, comp)
        enc = ref.encrypt(priv, comp, ap, pw, api.kdf, ref.BTC_ALPHABET)[0]
        inter = ref.intermediate(pw, b"saltsalt", None, None, api.kdf)[0]
        made = ref.create(inter, comp, rng.randbytes(24), ap, api.kdf, ref.BTC_ALPHABET)[0]
        k = rng.randrange(5)
        if k == 0:
            obs.equal("encrypt on a new coin class", obs.call(inst.encrypt, wif, pw, network=net), enc)
        elif k == 1:
            obs.equal("decrypt on a new coin class", obs.call(inst.decrypt, enc, pw, network=net), wif)
        elif k == 2:
            obs.equal("create_new_encrypted_wif on a new coin class", obs.call(inst.create_new_encrypted_wif, inter, "wif-compressed" if comp else "wif", made["seed"], network=net), made)
        elif k == 3:
            obs.equal("confirm_code on a new coin class", obs.call(inst.confirm_code, pw, made["confirmation_code"], network=net), made["address"])
        else:
            obs.equal("private_key_to_wif on a new coin class", obs.call(api.wif.private_key_to_wif, priv, "wif-compressed" if comp else "wif", cls, net), wif)
            obs.equal("wif_to_private_key on a new coin class", obs.call(api.wif.wif_to_private_key, wif, cls, net), priv.hex())
        obs.nontrivial(("transient", c["transient"], wif))
        del cls, inst, table
        gc.collect()
