"""Operations as data, with the outcome the reference model prescribes; used by the checks that
drive many operations against shared objects (histories, threads, faults, side effects)."""

from . import gen, ref, story


ALPHABETS = [None, None, ref.BTC_ALPHABET, ref.XRP_ALPHABET, ref.BTC_ALPHABET[::-1], ref.BTC_ALPHABET.replace("1", "0")]
LOW = ("address address address-decode address-decode wif wif wif-read wif-read wif-read encode decode check_encode check_decode hash ripemd key point integer hex").split()


def low_plan(c, api):
    """A call below the BIP38 class -> like plan()"""
    priv, comp = bytes.fromhex(c["priv"]), c["comp"]
    wp, ap = api.golden[c["coin"]][c["net"]]
    E, fn = api.REFUSED, c["fn"]
    A = c["alpha"] or ref.BTC_ALPHABET
    B = c["other"] or ref.BTC_ALPHABET
    akw = {} if c["alpha"] is None else {"alphabet": c["alpha"]}
    bkw = {} if c["other"] is None else {"alphabet": c["other"]}
    hexed = c["form"] == "hex"
    raw = bytes.fromhex(c["salt"]) * (1 + c["n"] % 5)
    if c["n"] % 3 == 0:
        raw = bytes(c["n"] % 4) + raw

    def call(on, name, *a, **k):
        want = k.pop("want_", None)
        return dict(on=on, call=(name, a, k), want=want, refuse=None) if want is not None else dict(on=on, call=(name, a, k), want=None, refuse=E)
    pub = ref.pubkey(priv, comp)
    if fn == "address":
        kw = dict(akw, address_prefix=ap, public_key_type="compressed" if comp else "uncompressed")
        return call(api.addr, "encode", pub.hex() if hexed else pub, want_=ref.address(pub, ap, A), **kw)
    if fn == "address-decode":
        to = api.golden[c["to"][0]][c["to"][1]][1]
        text = ref.address(pub, ap, A)
        got = ref.b58check_decode(text, B)
        p = ref.pfx(to)
        ok = got is not None and got.startswith(p) and len(got) == len(p) + 20
        return call(api.addr, "decode", text, address_prefix=to, want_=got[len(p):].hex() if ok else None, **bkw)
    if fn == "wif":
        k = priv.hex() if hexed else priv
        if c["n"] % 2:
            return call(api.wif, "encode_wif", k, wp, want_=(ref.wif_encode(priv, wp, False), ref.wif_encode(priv, wp, True)))
        return call(api.wif, "private_key_to_wif", k, "wif-compressed" if comp else "wif", api.coin(c["coin"]), c["net"], want_=ref.wif_encode(priv, wp, comp))
    if fn == "wif-read":
        coin, net = c["to"]
        text = ref.wif_encode(priv, wp, comp)
        d = ref.wif_decode(text, api.golden[coin][net][0])
        chk = ref.b58decode(text)[-4:]
        wt = None if d is None else "wif-compressed" if d[1] else "wif"
        k = c["n"] % 4
        if k == 0:
            return call(api.wif, "decode_wif", text, api.golden[coin][net][0], want_=None if d is None else (d[0], wt, chk))
        name = ("wif_to_private_key", "get_wif_type", "get_wif_checksum")[k - 1]
        return call(api.wif, name, text, api.coin(coin), net, want_=None if d is None else (d[0].hex(), wt, chk.hex())[k - 1])
    if fn in ("encode", "check_encode"):
        return call(api.b58, fn, raw, want_=(ref.b58encode if fn == "encode" else ref.b58check)(raw, A), **akw)
    if fn in ("decode", "check_decode"):
        text = (ref.b58encode if fn == "decode" else ref.b58check)(raw, A)
        return call(api.b58, fn, text, want_=(ref.b58decode if fn == "decode" else ref.b58check_decode)(text, B), **bkw)
    if fn == "hash":
        name, f = (("sha256", ref.sha256), ("double_sha256", ref.sha256d), ("get_checksum", lambda b: ref.sha256d(b)[:4]), ("hash160", ref.hash160))[c["n"] % 4]
        return call(api.crypto, name, raw.hex() if hexed else raw, want_=f(raw))
    if fn == "ripemd":
        return call(api.crypto, "ripemd160", raw.hex() if hexed else raw, want_=ref.ripemd160(raw))
    if fn == "key":
        return dict(on=lambda k: api.secp.PrivateKey.from_bytes(k).public_key().raw_compressed() if comp else api.secp.PrivateKey.from_bytes(k).public_key().raw_uncompressed(),
                    call=("PrivateKey.from_bytes().public_key().raw", (priv,), {}), want=pub, refuse=None)
    if fn == "point":
        k = int.from_bytes(ref.sha256(raw), "big") % ref.N or 1
        pt = ref.ec_mul(k, ref.parse_pub(pub))
        return dict(on=lambda b, n: (lambda q: (q.x(), q.y()))(api.secp.PublicKey.from_bytes(b).point() * n), call=("PublicKey.from_bytes().point() * n", (pub, k), {}), want=tuple(pt), refuse=None)
    if fn == "integer":
        little = c["n"] % 2 == 0
        e = {"endianness": "little" if little else "big"} if c["n"] % 3 else {}
        order = e.get("endianness", "big")
        if hexed:
            return call(api.utils, "bytes_to_integer", raw, want_=int.from_bytes(raw, order), **e)
        v = int.from_bytes(raw, "big")
        return call(api.utils, "integer_to_bytes", v, len(raw), want_=v.to_bytes(len(raw), order), **e)
    return call(api.utils, "bytes_to_string" if hexed else "get_bytes", raw if hexed else raw.hex(), want_=raw.hex() if hexed else raw)


class Pool:
    """A small pool of arguments: operations drawn from it share passphrases, keys, salts, lots,
    networks in every combination, so that anything remembered under too small a key shows."""

    def __init__(self, rng, api, coins=None):
        self.rng = rng
        self.pws = [gen.passphrase(rng, k)[0] for k in ("ascii", "composed", "ascii", "space", None)] + ["Satoshi"]
        self.keys = [gen.key(rng) for _ in range(2)]
        self.keys.append((ref.N - int.from_bytes(self.keys[0], "big")).to_bytes(32, "big"))       # same x, other y
        self.salts = [rng.randbytes(8) for _ in range(2)]
        self.salts.append(self.salts[0][:4] + rng.randbytes(4))
        self.seeds = [rng.randbytes(24) for _ in range(3)]
        self.seeds[2] = b"\0" + self.seeds[2][1:]
        self.lots = [(None, None), (100000, 0), (999999, 4095), (rng.randrange(100000, 1000000), rng.randrange(4096))]
        multi = [c for c in api.golden if len(api.golden[c]) > 1 and hasattr(api.coins, c)]
        self.coins = coins or (["Bitcoin"] + rng.sample(sorted(multi), 1) + [rng.choice(api.pairs)[0]])
        self.where = [(c, n) for c in self.coins for n in sorted(api.golden[c])]
        self.forges = [["flag", rng.choice([0x40, 0x80, 0xC0])], ["prefix", rng.randrange(1, 255)], ["length", rng.choice([-1, 1, 16])]]

    def op(self, api, low=0.0):
        """one operation; with probability low one of the functions below the BIP38 class"""
        rng = self.rng
        if rng.random() < low:
            return self.low(api)
        coin, net = rng.choice(self.where)
        nets = sorted(api.golden[coin])
        inst = rng.choice(nets)
        c = dict(coin=coin, net=net, inst=inst, arg=(rng.choice([None, net]) if inst == net else net),
                 pw=rng.choice(self.pws), priv=rng.choice(self.keys).hex(), comp=rng.random() < 0.5)
        c["lot"], c["seq"] = rng.choice(self.lots)
        salt = rng.choice(self.salts)
        c["salt"] = {"hex": (salt if c["lot"] is None or rng.random() < 0.5 else salt[:4]).hex()}
        c["seed"] = {"hex": rng.choice(self.seeds).hex()}
        c["op"] = rng.choice("encrypt decrypt decrypt-ec create confirm intermediate decrypt decrypt-ec".split())
        c["detail"] = rng.random() < 0.5
        r = rng.random()
        if r < 0.12:
            c["bad"] = "passphrase"
        elif r < 0.2:
            c["bad"] = "string"
        elif r < 0.25:
            c["bad"] = "network"
        elif r < 0.28:
            c["bad"] = "other"
        elif r < 0.36:
            c["bad"] = "elsewhere"                  # the same string, taken to another coin or network
            c["to"] = rng.choice(self.where)
        elif r < 0.44:
            c["bad"] = "forged"                     # well-formed, with one field that means nothing
            c["forge"] = rng.choice(self.forges)
        return c

    def low(self, api):
        rng = self.rng
        coin, net = rng.choice(self.where)
        return dict(op="low", fn=rng.choice(LOW), coin=coin, net=net, inst=net, arg=None, to=rng.choice(self.where), priv=rng.choice(self.keys).hex(), comp=rng.random() < 0.5,
                    alpha=rng.choice(ALPHABETS), other=rng.choice(ALPHABETS), pw=None, salt=rng.choice(self.salts).hex(), form=rng.choice(["bytes", "hex"]), n=rng.randrange(1 << 16))


def plan(c, api):
    """-> dict(call=(method name, args, kwargs), want=value or None, refuse=exception classes or None)"""
    if c["op"] == "low":
        return low_plan(c, api)
    if c.get("bad") == "elsewhere":
        return elsewhere(c, api)
    if c.get("bad") == "forged":
        return forged(c, api)
    kw = story.kw(c)
    op, bad = c["op"], c.get("bad")
    E = api.exc
    pw = c["pw"] + "?" if bad == "passphrase" else c["pw"]
    if bad == "network":
        kw = dict(kw, network="nonet")
    wt = "wif-compressed" if c["comp"] else "wif"

    def hurt(s):
        return s[:-1] + ("2" if s[-1] != "2" else "3") if bad == "string" else s
    if op == "intermediate":
        args = dict(passphrase=c["pw"], owner_salt=c["salt"]["hex"])
        if c["lot"] is not None:
            args.update(lot=c["lot"], sequence=c["seq"])
        if bad == "other":
            return dict(call=("intermediate_code", (), dict(args, lot=99999, sequence=1)), refuse=(E.Error, ValueError), want=None)
        return dict(call=("intermediate_code", (), args), want=story.inter_model(c, api)[0], refuse=None)
    if op == "encrypt":
        enc, d, _ = story.nonec_model(c, api)
        if bad in ("string", "network"):
            return dict(call=("encrypt", (hurt(d["wif"]), c["pw"]), kw), want=None, refuse=(E.Error, ValueError))
        return dict(call=("encrypt", (d["wif"], c["pw"]), kw), want=enc, refuse=None)
    if op == "decrypt":
        enc, d, _ = story.nonec_model(c, api)
        kw = dict(kw, detail=c["detail"])
        if bad in ("string", "network", "passphrase"):
            return dict(call=("decrypt", (hurt(enc), pw), kw), want=None, refuse=(E.Error, ValueError))
        return dict(call=("decrypt", (enc, pw), kw), want=d if c["detail"] else d["wif"], refuse=None)
    inter, ii = story.inter_model(c, api)
    if op == "create" and bad in ("string", "network", "other"):
        seed = c["seed"]["hex"][:-2] if bad == "other" else c["seed"]["hex"]
        return dict(call=("create_new_encrypted_wif", (hurt(inter), wt, seed), kw), want=None, refuse=(E.Error, ValueError))
    made, info = story.create_model(c, api, inter)
    if op == "create":
        return dict(call=("create_new_encrypted_wif", (inter, wt, c["seed"]["hex"]), kw), want=made, refuse=None)
    kw = dict(kw, detail=c["detail"])
    if op == "confirm":
        d = story.confirm_detail(c, made)
        if bad in ("string", "network", "passphrase"):
            return dict(call=("confirm_code", (pw, hurt(made["confirmation_code"])), kw), want=None, refuse=(E.Error, ValueError))
        return dict(call=("confirm_code", (pw, made["confirmation_code"]), kw), want=d if c["detail"] else d["address"], refuse=None)
    d = story.ec_detail(c, api, ii, made, info)
    if bad in ("string", "network", "passphrase"):
        return dict(call=("decrypt", (hurt(made["encrypted_wif"]), pw), kw), want=None, refuse=(E.Error, ValueError))
    return dict(call=("decrypt", (made["encrypted_wif"], pw), kw), want=d if c["detail"] else d["wif"], refuse=None)


def elsewhere(c, api):
    """The string made for one coin network used on another, by naming the network or on another coin's instance."""
    coin, net = c["to"]
    base = plan(dict(c, bad=None), api)
    name, a, _ = base["call"]
    if name in ("intermediate_code", "create_new_encrypted_wif"):
        return base
    same_coin = coin == c["coin"]
    k = {"network": net} if same_coin else {}
    on = None if same_coin else api.instance(coin, net)
    out = dict(call=(name, a, dict(k, detail=c["detail"]) if name != "encrypt" else k), want=None, refuse=api.REFUSED)
    if on is not None:
        out["on"] = on
    wp, ap = api.golden[coin][net]
    try:
        if name == "encrypt":
            d = ref.wif_decode(a[0], wp)
            if d is not None:
                out.update(want=ref.encrypt(d[0], d[1], ap, a[1], api.kdf, api.alphabet(coin))[0], refuse=None)
        elif name == "decrypt":
            d = ref.decrypt(a[0], a[1], wp, ap, api.kdf, api.alphabet(coin))
            out.update(want=d if c["detail"] else d["wif"], refuse=None)
        else:
            d = ref.confirm(a[0], a[1], ap, api.kdf, api.alphabet(coin))
            out.update(want=d if c["detail"] else d["address"], refuse=None)
    except ref.Refused:
        out["refuse"] = api.exc.PassphraseError
    return out


def forged(c, api):
    """The operation's string with a good checksum over a payload that is not one."""
    base = plan(dict(c, bad=None), api)
    name, a, k = base["call"]
    if name == "intermediate_code":
        return base
    at = 1 if name == "confirm_code" else 0
    if name == "encrypt":
        raw = ref.b58decode(a[0])[:-4]
    else:
        raw = ref.b58check_decode(a[at])
    what, v = c["forge"]
    if what == "length" or name == "encrypt":
        v = 16 if what != "length" or name == "encrypt" else v       # one byte more or less can be another WIF
        raw = raw[:v] if v < 0 else raw + b"\1" * v
    elif what == "prefix" or name == "create_new_encrypted_wif":
        i = 1 if name == "decrypt" else 3
        raw = raw[:i] + bytes([raw[i] ^ (v if v != 1 else 2)]) + raw[i + 1:]      # 0x42 and 0x43 differ by one
    else:
        i = 5 if name == "confirm_code" else 2
        f = raw[i] ^ v
        if raw[:2] == b"\1\x42":
            f = v if v != 0xC0 else 0
        raw = raw[:i] + bytes([f]) + raw[i + 1:]
    a = a[:at] + (ref.b58check(raw),) + a[at + 1:]
    return dict(call=(name, a, k), want=None, refuse=api.REFUSED)


def invoke(inst, p):
    name, a, k = p["call"]
    on = p.get("on", inst)
    if callable(on) and not hasattr(on, name):
        return on(*a, **k)
    return getattr(on, name)(*a, **k)


def judge(obs, what, p, got):
    name = p["call"][0]
    if p["refuse"] is not None:
        obs.refused("%s%s" % (what, name), got, p["refuse"])
    else:
        obs.equal("%s%s" % (what, name), got, p["want"])


class Tables:
    """Configuration that no operation may change."""

    def __init__(self, api):
        self.api = api
        self.tables = self.snap()

    def snap(self):
        return {c: {n: dict(v) for n, v in self.api.coin(c).NETWORKS.items()} for c in self.api.golden if hasattr(self.api.coins, c)}

    def check(self, obs, what):
        now = self.snap()
        obs.count("coin tables compared")
        if now != self.tables:
            bad = [c for c in now if now[c] != self.tables.get(c)]
            obs.fail("%s changed the coin tables of %s" % (what, bad))


def instance_config(inst, coin_cls, net, obs, what):
    for attr, want in (("network", net), ("cryptocurrency", coin_cls)):
        if hasattr(inst, attr) and getattr(inst, attr) != want:
            obs.fail("%s changed the instance's %s to %r" % (what, attr, getattr(inst, attr)))
