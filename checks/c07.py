"""C07 - a wrong passphrase never yields a key or an address."""
from lib import gen, ref, story
from lib.fw import Phase

PROP = "C07"
LEVEL = "exploration"
RULE = ("one case = one valid encrypted key or confirmation code and one different passphrase, or one string whose carried address hash agrees with the "
        "recovered address in some bits only (what a wrong passphrase produces by chance); the operation has to raise the incorrect-passphrase error; "
        "distinct = distinct (string, passphrase tried)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements BIP38; it reproduces the published vectors in setup_cmd",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)",
               "passphrases that scrypt itself cannot tell apart (trailing NUL characters) are not tried"]
NEED = ("refusals observed", "controls opened", "hash agrees in 31 of 32 bits", "flag changed", "hash: other form", "hash: other prefix", "hash: public key")


def phases(tier):
    q = tier == "quick"
    return [Phase("real-scrypt", "real", 8, n=3 if q else 60),
            Phase("stub", "stub", 8, n=420 if q else 8000)]


OPS = ("nonec", "nonec", "ec", "confirm")


def cases(phase, rng, shard, nshards, tier, api):
    for i in range(phase.opts["n"]):
        op = rng.choice(OPS)
        c = story.nonec_case(rng, api) if op == "nonec" else story.ec_case(rng, api)
        c["op"] = op
        c["detail"] = rng.random() < 0.5
        if rng.random() < (0.45 if phase.kdf == "stub" else 0.3):
            # forged address hash: agrees in some bits / bytes / order only
            k = rng.randrange(8)
            if k > 4:
                mask = rng.choice(["flag", "other form", "other form", "other prefix", "public key", "lot flag", "single hash", "tail", "hash160", "base58 checksum", "lower case", "script"])
            elif k == 0:
                mask = 1 << rng.randrange(32)
            elif k == 1:
                mask = 0xFF << (8 * rng.randrange(4))
            elif k == 2:
                mask = rng.choice([0xFFFF, 0xFFFF0000, 0xFFFFFF, 0xFFFFFF00, 0xFF00FF00])
            elif k == 3:
                mask = "reverse"
            else:
                mask = rng.choice(["swap", "zero", "ones"])
            c["mask"] = mask
        else:
            wrong = gen.near_misses(rng, c["pw"])
            rng.shuffle(wrong)
            c["wrong"] = [list(w) for w in wrong[:6 if phase.kdf == "stub" else 1]]
            c["wrong"] += [["unrelated", gen.passphrase(rng, "ascii")[0]]] if phase.kdf == "stub" else []
        yield c


def masked(ah, mask, pub=None, other=None, ap=None, alpha=None):
    if mask == "other form":                          # the hash of the same key's address in the other form
        return ref.addr_hash(ref.address(other, ap, alpha))
    if mask == "other prefix":
        return ref.addr_hash(ref.address(pub, ap ^ 1, alpha))
    if mask == "public key":                          # a hash of the key and not of its address
        return ref.sha256d(pub)[:4]
    if mask in ("single hash", "tail", "hash160", "base58 checksum", "lower case", "script"):       # hashes of the right key's other names
        addr, h = ref.address(pub, ap, alpha), ref.hash160(pub)
        return dict(zip(("single hash", "tail", "hash160", "base58 checksum", "lower case", "script"), (
            ref.sha256(addr.encode())[:4], ref.sha256d(addr.encode())[-4:], h[:4], ref.sha256d(ref.pfx(ap) + h)[:4], ref.addr_hash(addr.lower()),
            ref.addr_hash(ref.b58check(b"\x05" + ref.hash160(b"\0\x14" + h), alpha)))))[mask]
    if isinstance(mask, int):
        return bytes(a ^ b for a, b in zip(ah, mask.to_bytes(4, "big")))
    if mask == "reverse":
        return ah[::-1]
    if mask in ("flag", "lot flag"):
        return ah                                     # only the flag byte is changed
    if mask == "swap":
        return ah[2:] + ah[:2]
    return b"\0" * 4 if mask == "zero" else b"\xff" * 4


def forge(c, api):
    """A well-formed string that opens to a proper key whose address hash is not the one carried."""
    ap = api.prefixes(c["coin"], c["net"])[1]
    alpha = api.alphabet(c["coin"])
    if c["op"] == "nonec":
        priv = bytes.fromhex(c["priv"])
        pub = ref.pubkey(priv, c["comp"])
        ah = ref.addr_hash(ref.address(pub, ap, alpha))
        fake = masked(ah, c["mask"], pub, ref.pubkey(priv, not c["comp"]), ap, alpha)
        dk = api.kdf(ref.pw_bytes(c["pw"]), fake, 16384, 8, 8, 64)
        body = ref.aes_enc(dk[32:], ref.xor(priv[:16], dk[:16])) + ref.aes_enc(dk[32:], ref.xor(priv[16:], dk[16:32]))
        return ref.b58check(b"\x01\x42" + (b"\xe0" if c["comp"] != (c["mask"] == "flag") else b"\xc0") + fake + body), ah, fake
    inter, ii = story.inter_model(c, api)
    seed = gen.raw(c["seed"])
    fbi = int.from_bytes(ref.sha256d(seed), "big")
    point = ref.ec_mul(int.from_bytes(ii["pass_factor"], "big") * fbi)
    pub = ref.ser_pub(point, c["comp"])
    ah = ref.addr_hash(ref.address(pub, ap, alpha))
    fake = masked(ah, c["mask"], pub, ref.ser_pub(point, not c["comp"]), ap, alpha)
    entropy = ii["entropy"]
    dk = api.kdf(ii["pass_point"], fake + entropy, 1024, 1, 1, 64)
    k = dk[32:]
    flag = bytes([(0x20 if c["comp"] else 0) | (4 if c["lot"] is not None else 0)])
    if c["mask"] in ("flag", "lot flag"):
        flag = bytes([flag[0] ^ (0x20 if c["mask"] == "flag" else 4)])
    if c["op"] == "ec":
        e1 = ref.aes_enc(k, ref.xor(seed[:16], dk[:16]))
        e2 = ref.aes_enc(k, ref.xor(e1[8:] + seed[16:], dk[16:32]))
        return ref.b58check(b"\x01\x43" + flag + fake + entropy + e1[:8] + e2), ah, fake
    pb = ref.ser_pub(ref.ec_mul(fbi), True)
    epb = (bytes([pb[0] ^ (dk[63] & 1)]) + ref.aes_enc(k, ref.xor(pb[1:17], dk[:16]))
           + ref.aes_enc(k, ref.xor(pb[17:], dk[16:32])))
    return ref.b58check(ref.CFRM + flag + fake + entropy + epb), ah, fake


def run(c, api, obs):
    inst = story.instance(c, api)
    k = dict(story.kw(c), detail=c["detail"])

    def attempt(s, pw):
        if c["op"] == "confirm":
            return obs.call(inst.confirm_code, passphrase=pw, confirmation_code=s, **k)
        return obs.call(inst.decrypt, encrypted_wif=s, passphrase=pw, **k)
    obs.feature("operation:" + c["op"])
    if "mask" in c:
        s, ah, fake = forge(c, api)
        if c["mask"] == "lot flag" and c["op"] == "nonec":
            return
        if c["mask"] in ("flag", "lot flag"):
            obs.feature("flag changed")
            obs.refused("%s of a string with another %s" % (c["op"], c["mask"]), attempt(s, c["pw"]), api.exc.PassphraseError)
            obs.nontrivial((s, c["pw"]))
            return
        if ah == fake:
            return
        obs.feature("hash: %s" % c["mask"] if isinstance(c["mask"], str) else "hash: masked")
        bits = 32 - bin(int.from_bytes(ah, "big") ^ int.from_bytes(fake, "big")).count("1")
        obs.feature("hash agrees in %d of 32 bits" % bits)
        obs.refused("%s of a string whose address hash agrees in %d of 32 bits" % (c["op"], bits), attempt(s, c["pw"]), api.exc.PassphraseError)
        obs.nontrivial((s, c["pw"]))
        return
    if c["op"] == "nonec":
        s, detail, _ = story.nonec_model(c, api)
        good = detail if c["detail"] else detail["wif"]
    else:
        inter, ii = story.inter_model(c, api)
        made, info = story.create_model(c, api, inter)
        if c["op"] == "ec":
            s = made["encrypted_wif"]
            d = story.ec_detail(c, api, ii, made, info)
            good = d if c["detail"] else d["wif"]
        else:
            s = made["confirmation_code"]
            good = story.confirm_detail(c, made) if c["detail"] else made["address"]
    v, e = attempt(s, c["pw"])
    if e is None and v == good:
        obs.count("controls opened")
    for kind, pw in c["wrong"]:
        if gen.canon(pw) == gen.canon(c["pw"]):
            continue
        obs.feature("difference: " + kind)
        obs.refused("%s with another passphrase (%s)" % (c["op"], kind), attempt(s, pw), api.exc.PassphraseError)
        obs.nontrivial((s, gen.canon(pw)))
