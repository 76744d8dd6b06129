"""Cases shared by several checks: how a key is encrypted / generated / opened, and what the
reference model says about it."""

import hashlib
import json
import os

from . import gen, ref

HARD = {}


def hard(rng, api, kind):
    """now and then an input whose intermediate values have rare shapes (data/hard_stub.json)"""
    if api.kdf_mode != "stub" or rng.random() > 0.03:
        return {}
    if not HARD:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "hard_stub.json")) as f:
            HARD.update(json.load(f))
    h = dict(rng.choice(HARD[kind]), coin="Bitcoin", net="mainnet", kind="ascii")
    h.pop("why")
    h["inst"] = rng.choice(["mainnet", "testnet"])
    h["arg"] = "mainnet" if h["inst"] == "testnet" else rng.choice([None, "mainnet"])
    if kind == "ec":
        h["salt"], h["seed"] = {"hex": h["salt"]}, {"hex": h["seed"]}
    return h


def correlate(rng, api, c):
    """now and then one argument is made from another: a passphrase that is the WIF, the address or the salt, the key
    that is the passphrase's hash, a seed that holds the salt"""
    if rng.random() > 0.04:
        return
    ap = api.prefixes(c["coin"], c["net"])
    own = [c["net"], c["coin"] if isinstance(c["coin"], str) else "UserCoin", "wif-compressed" if c["comp"] else "wif", "mainnet"]
    if "priv" in c:
        priv = bytes.fromhex(c["priv"])
        if rng.random() < 0.25:
            d = hashlib.sha256(gen.unicodedata.normalize("NFC", c["pw"]).encode()).digest()
            if 0 < int.from_bytes(d, "big") < ref.N:
                c["priv"], c["kind"] = d.hex(), "hashed gives the key"
                return
        wif = ref.wif_encode(priv, ap[0], c["comp"])
        pub = ref.pubkey(priv, c["comp"])
        own += [wif, wif, wif[::-1], priv.hex(), priv.hex().upper(), str(int(c["priv"], 16)), ref.address(pub, ap[1], api.alphabet(c["coin"])),
                pub.hex(), wif[:len(wif) // 2], wif + " ", hashlib.sha256(priv).hexdigest()]
    else:
        salt, seed = gen.raw(c["salt"]), gen.raw(c["seed"])
        r = rng.random()
        if r < 0.3:
            i = rng.randrange(0, 24 - len(salt) + 1)
            i = rng.choice([0, 8, 24 - len(salt), i])
            seed = seed[:i] + salt + seed[i + len(salt):]
            if rng.random() < 0.3:
                seed = (salt * 6)[:24]
            c["seed"], c["kind"] = {list(c["seed"])[0]: seed.hex()}, c["kind"]
            return
        if r < 0.45:
            pb = (c["pw"].encode("utf-8", "surrogatepass") * 8)
            if len(pb) >= 24:
                if rng.random() < 0.5:
                    c["salt"] = {"bytes": pb[:len(salt)].hex()}
                else:
                    c["seed"] = {"bytes": pb[:24].hex()}
                return
        own += [salt.hex(), salt.hex().upper(), seed.hex(), str(c["lot"]), "%s-%s" % (c["lot"], c["seq"]), str(c["seq"]), salt.decode("latin-1").strip("\0") or "s"]
    c["pw"], c["kind"] = rng.choice(own), "another argument"


def nonec_case(rng, api, **kw):
    c = gen.target(rng, api)
    c["priv"] = gen.key(rng).hex()
    c["comp"] = rng.random() < 0.5
    c["pw"], c["kind"] = gen.passphrase(rng)
    if rng.random() < 0.08:                       # key bytes that look like the format's own markers
        wp = ref.pfx(api.prefixes(c["coin"], c["net"])[0])
        b = bytearray(bytes.fromhex(c["priv"]))
        b[:len(wp)] = wp
        if rng.random() < 0.5:
            b[-1] = 1
        if 0 < int.from_bytes(b, "big") < ref.N:
            c["priv"] = bytes(b).hex()
    correlate(rng, api, c)
    c.update(hard(rng, api, "nonec"))
    c.update(kw)
    return c


def ec_case(rng, api, **kw):
    c = gen.target(rng, api)
    c["lot"], c["seq"] = gen.lotseq(rng)
    n = 8 if c["lot"] is None else rng.choice([4, 8])
    c["salt"] = gen.data_form(rng, gen.salt(rng, n))
    c["seed"] = gen.data_form(rng, gen.seed24(rng))
    c["comp"] = rng.random() < 0.5
    c["pw"], c["kind"] = gen.passphrase(rng)
    correlate(rng, api, c)
    c.update(hard(rng, api, "ec"))
    c.update(kw)
    return c


def nonec_model(c, api):
    wp, ap = api.prefixes(c["coin"], c["net"])
    priv = bytes.fromhex(c["priv"])
    alpha = api.alphabet(c["coin"])
    enc, info = ref.encrypt(priv, c["comp"], ap, c["pw"], api.kdf, alpha)
    pub = ref.pubkey(priv, c["comp"])
    detail = dict(
        wif=ref.wif_encode(priv, wp, c["comp"]), private_key=priv.hex(),
        wif_type="wif-compressed" if c["comp"] else "wif", public_key=pub.hex(),
        public_key_type="compressed" if c["comp"] else "uncompressed",
        seed=None, address=info["address"], lot=None, sequence=None)
    return enc, detail, info


def inter_model(c, api):
    return ref.intermediate(c["pw"], gen.raw(c["salt"]), c["lot"], c["seq"], api.kdf)


def create_model(c, api, inter):
    wp, ap = api.prefixes(c["coin"], c["net"])
    return ref.create(inter, c["comp"], gen.raw(c["seed"]), ap, api.kdf, api.alphabet(c["coin"]))


def ec_detail(c, api, inter_info, made, info):
    """What decryption with detail has to report for a generated key."""
    wp, ap = api.prefixes(c["coin"], c["net"])
    priv = (int.from_bytes(inter_info["pass_factor"], "big") * int.from_bytes(info["factor_b"], "big") % ref.N).to_bytes(32, "big")
    return dict(
        wif=ref.wif_encode(priv, wp, c["comp"]), private_key=priv.hex(),
        wif_type="wif-compressed" if c["comp"] else "wif", public_key=made["public_key"],
        public_key_type=made["public_key_type"], seed=made["seed"], address=made["address"],
        lot=c["lot"], sequence=c["seq"])


def confirm_detail(c, made):
    return dict(public_key=made["public_key"], public_key_type=made["public_key_type"], address=made["address"],
                lot=c["lot"], sequence=c["seq"])


def instance(c, api):
    return api.instance(c["coin"], c["inst"], c.get("fresh"))


def kw(c):
    return {} if c.get("arg") is None else {"network": c["arg"]}


def shape_features(obs, **parts):
    """Record which hard byte shapes were really met."""
    for name, b in parts.items():
        if b is None:
            continue
        if b[0] == 0:
            obs.feature("%s starts with 00" % name)
            if len(b) > 1 and b[1] == 0:
                obs.feature("%s starts with 0000" % name)
        if b[-1] == 0:
            obs.feature("%s ends with 00" % name)
        if len(b) == 32 and b[16] == 0:
            obs.feature("%s second half starts with 00" % name)


def situation(c, obs, api):
    obs.feature("passphrase:" + c["kind"])
    obs.feature("user-defined coin" if isinstance(c["coin"], dict) else "registered coin")
    obs.feature("network from instance" if c.get("arg") is None else
                ("network named, same as instance" if c["arg"] == c["inst"] else "network named, overrides instance"))
    ap = api.prefixes(c["coin"], c["net"])[1]
    if ap > 255:
        obs.feature("multi-byte address prefix")
    obs.feature("compressed" if c["comp"] else "uncompressed")
    if "lot" in c:
        obs.feature("lot/sequence" if c["lot"] is not None else "no lot/sequence")
        if c["lot"] in (100000, 999999):
            obs.feature("lot boundary")
        if c["seq"] in (0, 4095):
            obs.feature("sequence boundary %d" % c["seq"])


def flip(rng, form):
    """the same form of data with one bit changed"""
    b = bytearray(gen.raw(form))
    i = rng.choice([0, len(b) - 1, len(b) // 2, rng.randrange(len(b))])
    b[i] ^= 1 << rng.randrange(8)
    return {"bytes": bytes(b).hex()} if "bytes" in form else {"hex": bytes(b).hex()}


def twin(rng, api, c):
    """What to change in a case so that exactly one of its arguments is another one (and close by).  Anything
    the code keeps under too short a name then answers one of the two calls with the other's result."""
    ways = []
    if c.get("coin") is not None:
        ways.append("coin")
        nets = list(c["coin"]["networks"]) if isinstance(c["coin"], dict) else sorted(api.golden[c["coin"]])
        if len(nets) > 1:
            ways += ["network"] * 2
    ways += [k for k in ("priv", "salt", "seed", "comp", "pw", "pw") if k in c]
    if c.get("lot") is not None:
        ways += ["lot", "seq"]
    if "salt" in c and c.get("lot") is None and len(gen.raw(c["salt"])) == 8:
        ways.append("add lot")
    way = rng.choice(ways)
    if way == "coin":
        same = [p for p in api.pairs if p[1] == c["net"] and p[0] != c["coin"]]
        wp, ap = api.prefixes(c["coin"], c["net"])
        near = [p for p in same if api.golden[p[0]][p[1]][0] == wp or api.golden[p[0]][p[1]][1] == ap]
        coin, net = rng.choice((near if near and rng.random() < 0.5 else same) or api.pairs)
        ok = c["inst"] in api.golden[coin]
        ok = ok and (net == c["inst"] or c["arg"] is not None)
        d = dict(coin=coin, net=net, inst=c["inst"] if ok else net, arg=net if ok and c["arg"] else None)
    elif way == "network":
        net = rng.choice([n for n in nets if n != c["net"]])
        d = dict(net=net, inst=c["inst"] if c["arg"] else net, arg=net if c["arg"] else None)
    elif way == "priv":
        d = dict(priv=flip(rng, {"hex": c["priv"]})["hex"])
        if not 0 < int(d["priv"], 16) < ref.N:
            return None
    elif way in ("salt", "seed"):
        d = {way: flip(rng, c[way])}
    elif way == "comp":
        d = dict(comp=not c["comp"])
    elif way == "pw":
        _, pw = rng.choice(gen.near_misses(rng, c["pw"]))
        d = dict(pw=pw, wrong=None)
    elif way in ("lot", "seq"):
        lo, hi = (100000, 999999) if way == "lot" else (0, 4095)
        v = c[way] + rng.choice([-1, 1, 2, 256, -256, 1000, 10])
        d = {way: v if lo <= v <= hi else (lo if c[way] == hi else hi)}
    else:
        d = dict(lot=100000 + rng.randrange(900000), seq=rng.randrange(4096))
    return dict(way=way, set=d)


def with_twins(rng, api, cases, rate=0.12):
    for c in cases:
        if rng.random() < rate and "vector" not in c:
            t = twin(rng, api, c)
            if t:
                c = dict(c, twin=t)
        yield c


def paired(body):
    """run a case, then its twin, then the case again"""
    def run(c, api, obs):
        body(c, api, obs)
        t = c.get("twin")
        if t:
            d = dict(c, **t["set"])
            del d["twin"]
            obs.feature("again with another " + t["way"])
            body(d, api, obs)
            body(dict(c, twin=None), api, obs)
    return run
