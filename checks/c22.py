"""C22 - every reported result is internally consistent."""
from lib import gen, ref, story
from lib.fw import Phase

PROP = "C22"
LEVEL = "exploration"
RULE = ("one case = one key taken through every operation that reports on it (encrypt/decrypt, or intermediate code/creation/confirmation/decryption, also opened on another coin network with the same "
        "address prefix), default salts and seeds and unusual flag and lot bytes included; every returned dictionary and string is checked against itself and the others; distinct = distinct keys reported")
ASSUMPTIONS = ["public keys, addresses and WIFs are recomputed from the reported private key by the stdlib-only model; no expected ciphertext is used"]
NEED = ("reports checked", "plain results compared with detailed ones", "creation, confirmation and decryption compared", "opened on another network with the same address prefix",
        "default salt and seed", "flag bits 08/10 offered", "lot bytes outside 100000-999999")


def phases(tier):
    q = tier == "quick"
    return [Phase("stub", "stub", 8, n=250 if q else 2500), Phase("real scrypt", "real", 2, n=3 if q else 40, order=0)]


def cases(phase, rng, shard, nshards, tier, api):
    for i in range(phase.opts["n"]):
        if i % 4 == 0:
            yield story.nonec_case(rng, api, mode="nonec")
        else:
            c = story.ec_case(rng, api, mode="ec")
            k = (i // 4) % 5
            if k == 1:
                c["seed"] = None
            elif k == 2:
                c["seed"] = c["salt"] = None
            elif k == 3:
                c["bits"] = rng.choice([0x08, 0x10, 0x18])
            elif k == 4 and rng.random() < 0.7:
                c["entropy"] = rng.choice(["00000000", "00000001", "00000fff", "00001000", "ffffffff", "00ffffff", "01000000", "%08x" % rng.randrange(1 << 32)])
            yield c


def seen(d, wp, ap, alpha, what, obs):
    """The dictionary agrees with itself: private key -> public key -> address, types, WIF."""
    if not isinstance(d, dict):
        obs.fail("%s returned %r" % (what, d))
    obs.count("reports checked")

    def need(cond, text):
        if not cond:
            obs.fail("%s: %s in %r" % (what, text, d))
    comp = d["public_key_type"] == "compressed"
    need(d["public_key_type"] in ("compressed", "uncompressed"), "public key type")
    try:
        pub = bytes.fromhex(d["public_key"])
    except ValueError:
        pub = b""
    need(ref.parse_pub(pub) is not None and len(pub) == (33 if comp else 65) and pub[0] in ((2, 3) if comp else (4,)) and pub.hex() == d["public_key"], "public key and its type disagree")
    need(d["address"] == ref.address(pub, ap, alpha), "address is not the public key's (%s)" % ref.address(pub, ap, alpha))
    if "private_key" in d:
        need(isinstance(d["private_key"], str) and len(d["private_key"]) == 64 and d["private_key"] == d["private_key"].lower(), "private key is not 64 hex digits")
        priv = bytes.fromhex(d["private_key"])
        need(0 < int.from_bytes(priv, "big") < ref.N, "private key is not in [1, n-1]")
        need(ref.pubkey(priv, comp) == pub, "public key is not the private key's")
        need(d["wif_type"] == ("wif-compressed" if comp else "wif"), "WIF type and key type disagree")
        need(d["wif"] == ref.wif_encode(priv, wp, comp), "WIF does not encode the private key for this network")
    if d.get("seed") is not None:
        need(isinstance(d["seed"], str) and len(d["seed"]) == 48 and bytes.fromhex(d["seed"]).hex() == d["seed"], "seed is not 24 bytes of hex")
    if "lot" in d:
        need((d["lot"] is None) == (d["sequence"] is None), "only one of lot and sequence")
    obs.nontrivial((d["public_key"], d["address"]))
    return d


def both(inst, method, args, kw, what, wp, ap, alpha, obs, plain):
    """detailed and plain result of one operation -> the detailed one"""
    a = obs.call(getattr(inst, method), *args, detail=True, **kw)
    b = obs.call(getattr(inst, method), *args, **kw)
    f = obs.call(getattr(inst, method), *args, detail=False, **kw)
    if (a[1] is None) != (b[1] is None) or (b[1] is None) != (f[1] is None):
        obs.fail("%s: plain and detailed call disagree: %r, %r, %r" % (what, a, b, f))
    if a[1] is not None:
        if type(a[1]) is not type(b[1]):
            obs.fail("%s: plain and detailed call are refused differently: %r, %r" % (what, a[1], b[1]))
        return None, a[1]
    d = seen(a[0], wp, ap, alpha, what, obs)
    if b[0] != d[plain] or f[0] != d[plain]:
        obs.fail("%s: the plain result %r / %r is not the %s of the detailed one %r" % (what, b[0], f[0], plain, d))
    obs.count("plain results compared with detailed ones")
    return d, None


def must(r, what, obs):
    if r[1] is not None:
        obs.fail("%s raised %r" % (what, r[1]))
    return r[0]


def same_prefix(rng, api, coin, net, ap, alpha):
    """other coin networks whose addresses are the same"""
    out = []
    for c, n in api.pairs:
        if (c, n) != (coin, net) and api.golden[c][n][1] == ap and api.alphabet(c) == alpha:
            out.append((c, n))
    return out


def elsewhere(c, api, obs, enc, d, what):
    wp, ap = api.prefixes(c["coin"], c["net"])
    alpha = api.alphabet(c["coin"])
    others = same_prefix(None, api, c["coin"], c["net"], ap, alpha)
    if not others:
        return
    coin, net = others[int(d["public_key"][10:16], 16) % len(others)]
    w2 = api.golden[coin][net][0]
    d2 = must(both(api.instance(coin, net), "decrypt", (enc, c["pw"]), {}, "decrypt on %s %s" % (coin, net), w2, ap, alpha, obs, "wif"), "decrypt on %s %s of a key of the same address prefix" % (coin, net), obs)
    if any(d2[k] != d[k] for k in d if k != "wif"):
        obs.fail("%s: decrypt on %s %s reports %r, on %s %s it reported %r" % (what, coin, net, d2, c["coin"], c["net"], d))
    obs.count("opened on another network with the same address prefix")


def run(c, api, obs):
    globals()["do_" + c["mode"]](c, api, obs)


def do_nonec(c, api, obs):
    wp, ap = api.prefixes(c["coin"], c["net"])
    alpha = api.alphabet(c["coin"])
    inst, kw = story.instance(c, api), story.kw(c)
    wif = ref.wif_encode(bytes.fromhex(c["priv"]), wp, c["comp"])
    enc = must(obs.call(inst.encrypt, wif, c["pw"], **kw), "encrypt", obs)
    d = must(both(inst, "decrypt", (enc, c["pw"]), kw, "decrypt", wp, ap, alpha, obs, "wif"), "decrypt of an encrypted key", obs)
    if d["wif"] != wif or d["private_key"] != c["priv"]:
        obs.fail("decrypt of the encrypted WIF %s reports %r" % (wif, d))
    if (d["seed"], d["lot"], d["sequence"]) != (None, None, None):
        obs.fail("decrypt of a key that was not generated reports seed, lot or sequence: %r" % d)
    if ref.b58check_decode(enc)[3:7] != ref.sha256d(d["address"].encode())[:4]:
        obs.fail("encrypt: the address hash in %s is not that of %s" % (enc, d["address"]))
    again = must(obs.call(inst.encrypt, d["wif"], c["pw"], **kw), "encrypt of the decrypted WIF", obs)
    if again != enc:
        obs.fail("encrypting the decrypted WIF again gives %s, it was %s" % (again, enc))
    elsewhere(c, api, obs, enc, d, "encrypt")


def do_ec(c, api, obs):
    wp, ap = api.prefixes(c["coin"], c["net"])
    alpha = api.alphabet(c["coin"])
    inst, kw = story.instance(c, api), story.kw(c)
    lk = {} if c["lot"] is None else dict(lot=c["lot"], sequence=c["seq"])
    lot, seq = c["lot"], c["seq"]
    if c["salt"] is not None:
        lk["owner_salt"] = gen.unform(c["salt"])
    inter = must(obs.call(api.BIP38.intermediate_code, c["pw"], **lk), "intermediate_code", obs)
    if c.get("entropy"):
        # what another implementation may have put there: lot bytes outside the conventional range
        salt4 = (gen.raw(c["salt"]) if c["salt"] else bytes(8))[:4]
        ent = salt4 + bytes.fromhex(c["entropy"])
        pre = api.kdf(__import__("unicodedata").normalize("NFC", c["pw"]).encode(), salt4, 16384, 8, 8, 32)
        pf = ref.sha256d(pre + ent)
        inter = ref.b58check(ref.MAGIC_LOT + ent + ref.pubkey(pf, True))
        lot, seq = divmod(int(c["entropy"], 16), 4096)
        obs.count("lot bytes outside 100000-999999", not 100000 <= lot <= 999999)
    wt = "wif-compressed" if c["comp"] else "wif"
    args = [inter, wt] + ([] if c["seed"] is None else [gen.unform(c["seed"])])
    made = seen(must(obs.call(inst.create_new_encrypted_wif, *args, **kw), "create_new_encrypted_wif", obs), wp, ap, alpha, "create_new_encrypted_wif", obs)
    if made["public_key_type"] != ("compressed" if c["comp"] else "uncompressed"):
        obs.fail("create_new_encrypted_wif of type %r reports %r" % (wt, made))
    if c["salt"] is None and c["seed"] is None:
        obs.count("default salt and seed")
    h = ref.sha256d(made["address"].encode())[:4]
    raw, cf = ref.b58check_decode(made["encrypted_wif"]), ref.b58check_decode(made["confirmation_code"])
    if raw[3:7] != h or cf[6:10] != h:
        obs.fail("create_new_encrypted_wif: the address hash in the encrypted key or confirmation code is not that of the address: %r" % made)
    if raw[2] != cf[5] or raw[7:15] != cf[10:18]:
        obs.fail("create_new_encrypted_wif: flag or owner entropy of the encrypted key and the confirmation code differ: %r" % made)
    con = must(both(inst, "confirm_code", (c["pw"], made["confirmation_code"]), kw, "confirm_code", wp, ap, alpha, obs, "address"), "confirm_code of the created code", obs)
    dec = must(both(inst, "decrypt", (made["encrypted_wif"], c["pw"]), kw, "decrypt", wp, ap, alpha, obs, "wif"), "decrypt of the created key", obs)
    for a, b, names in ((made, con, "creation and confirmation"), (made, dec, "creation and decryption"), (con, dec, "confirmation and decryption")):
        for k in set(a) & set(b):
            if a[k] != b[k]:
                obs.fail("%s report a different %s: %r, %r" % (names, k, a, b))
    if (dec["lot"], dec["sequence"]) != (lot, seq):
        obs.fail("lot %r, sequence %r went in, decryption reports %r" % (lot, seq, dec))
    obs.count("creation, confirmation and decryption compared")
    elsewhere(c, api, obs, made["encrypted_wif"], dec, "create_new_encrypted_wif")
    if c.get("bits"):
        # reserved flag bits: may be refused or opened, but what is reported has to be consistent
        for method, text, plain in (("decrypt", ref.b58check(raw[:2] + bytes([raw[2] | c["bits"]]) + raw[3:]), "wif"), ("confirm_code", ref.b58check(cf[:5] + bytes([cf[5] | c["bits"]]) + cf[6:]), "address")):
            a = (text, c["pw"]) if method == "decrypt" else (c["pw"], text)
            d, e = both(inst, method, a, kw, "%s with flag bits %02x" % (method, c["bits"]), wp, ap, alpha, obs, plain)
            obs.count("flag bits 08/10 offered")
            if d is not None:
                obs.count("flag bits 08/10 opened")
                if d["public_key"] != made["public_key"] or d["address"] != made["address"] or (d["lot"], d["sequence"]) not in ((lot, seq), (None, None)):
                    obs.fail("%s with flag bits %02x reports another key: %r" % (method, c["bits"], d))
            elif not isinstance(e, api.REFUSED):
                obs.fail("%s with flag bits %02x raised %r" % (method, c["bits"], e))
