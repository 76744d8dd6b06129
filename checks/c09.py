"""C09 - damaged or forged strings are refused, never opened as something else."""
from lib import gen, mutate, ref, story
from lib.fw import Phase

PROP = "C09"
LEVEL = "exploration"
RULE = ("one case = one damaged or forged text offered to every operation that takes that kind of string; where the independent model says the format does "
        "not define it, each operation has to raise a library error or ValueError; distinct = distinct text")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) decides which texts are well formed",
               "flag bytes with the two reserved 'future use' bits of BIP38 set are left unspecified for EC-multiplied strings"]
NEED = ("refusals observed", "controls opened", "kind:wif", "kind:nonec", "kind:ec", "kind:inter", "kind:cfrm", "kind:address",
        "forged:flag", "forged:length", "forged:prefix", "forged:checksum", "forged:point", "forged:field", "edit:substitute", "edit:foreign insert")


def phases(tier):
    q = tier == "quick"
    return [Phase("stub", "stub", 8, n=900 if q else 14000),
            Phase("every single substitution", "stub", 8, n=0, sweep=True),
            Phase("every flag byte and prefix", "stub", 8, n=0, flags=True)]


KINDS = ("wif", "nonec", "ec", "inter", "cfrm", "address")


def make(rng, api, kind, simple=False):
    if kind in ("wif", "nonec"):
        c = story.nonec_case(rng, api)
    else:
        c = story.ec_case(rng, api)
        c["priv"] = gen.key(rng).hex()
    if simple:
        c.update(coin="Bitcoin", net="mainnet", inst="mainnet", arg=None)
    c["what"] = kind
    return c


def valid(c, api):
    """-> valid text, its payload, prefix length"""
    k = c["what"]
    wp, ap = api.prefixes(c["coin"], c["net"])
    if k == "wif":
        return ref.wif_encode(bytes.fromhex(c["priv"]), wp, c["comp"])
    if k == "nonec":
        return story.nonec_model(c, api)[0]
    if k == "address":
        return ref.address(ref.pubkey(bytes.fromhex(c["priv"]), c["comp"]), ap)
    inter, _ = story.inter_model(c, api)
    if k == "inter":
        return inter
    made, _ = story.create_model(c, api, inter)
    return made["encrypted_wif"] if k == "ec" else made["confirmation_code"]


def shapes(rng, c, raw, kind):
    """Payloads of every length and with every field replaced, under a right checksum."""
    out = []
    fill = rng.randbytes(140)
    for n in range(0, 140):
        if n < len(raw):
            out += [["forged:length", ref.b58check(raw[:n])], ["forged:length", ref.b58check(raw[len(raw) - n:])]]
        elif n > len(raw):
            out += [["forged:length", ref.b58check(raw + x)] for x in (bytes(n - len(raw)), fill[:n - len(raw)], (raw * 4)[:n - len(raw)])]
            out.append(["forged:length", ref.b58check(raw[:-1] + fill[:n - len(raw)] + raw[-1:])])
    if kind == "inter":
        pt = ref.parse_pub(raw[16:])
        x, y = (v.to_bytes(32, "big") for v in pt)
        neg = (ref.P - pt[1]).to_bytes(32, "big")
        for t in (b"\4" + x + y, x + y, b"\6" + x + y, b"\7" + x + y, b"\4" + x + neg, x, b"\0" + x + y, b"\0", b"", raw[16:17], b"\4" + x):
            out.append(["forged:point", ref.b58check(raw[:16] + t)])
        out += [["forged:point", ref.b58check(raw[:16] + bytes([b]) + raw[17:])] for b in range(256)]
        for v in (0, 1, 5, ref.P - 1, ref.P, ref.P + 1, (1 << 256) - 1, ref.N) + tuple(rng.getrandbits(256) for _ in range(12)):
            out.append(["forged:point", ref.b58check(raw[:17] + v.to_bytes(32, "big"))])
    if kind == "cfrm":
        out += [["forged:point", ref.b58check(raw[:18] + bytes([b]) + raw[19:])] for b in range(256)]
    if kind in ("nonec", "ec", "cfrm"):
        # every other field of a well formed string changed: only the address hash can tell
        skip = 3 if kind != "cfrm" else 6
        for i in range(skip, len(raw)):
            for m in (1 << rng.randrange(8), rng.randrange(1, 256)):
                out.append(["forged:field", ref.b58check(raw[:i] + bytes([raw[i] ^ m]) + raw[i + 1:])])
        h = raw[skip:skip + 4]
        for alt in (bytes(4), b"\xff" * 4, h[::-1], bytes(2) + h[2:], h[:2] + bytes(2), h[1:] + h[:1]):
            if alt != h:
                out.append(["forged:field", ref.b58check(raw[:skip] + alt + raw[skip + 4:])])
    return out


def cases(phase, rng, shard, nshards, tier, api):
    if phase.opts.get("sweep"):
        for kind in KINDS:
            c = make(rng, api, kind, simple=True)
            s = valid(c, api)
            pos = list(range(len(s)))
            if tier == "quick":
                pos = [p for p in pos if p % 3 == shard % 3 or p in (0, 1, 2, len(s) - 1)]
            for p in pos:
                if tier == "quick" and p % 2 and shard % 2:
                    continue
                alts = [a for a in mutate.A + "0OIl " if a != s[p]]
                yield dict(c, texts=[["substitute at %d" % p, s[:p] + a + s[p + 1:]] for a in alts], control=None)
        return
    if phase.opts.get("flags"):
        for kind in ("nonec", "ec", "cfrm", "inter", "wif", "address"):
            for rep in range(1 if tier == "quick" else 6):
                c = make(rng, api, kind, simple=rep == 0)
                raw = ref.b58check_decode(valid(c, api))
                texts = []
                if kind in ("nonec", "ec"):
                    texts += [["forged:flag", ref.b58check(raw[:2] + bytes([f]) + raw[3:])] for f in range(256)]
                    texts += [["forged:prefix", ref.b58check(bytes([a, b]) + raw[2:])] for a in (0, 1, 2, 0x41, 0x42, 0x81) for b in range(0x3C, 0x4A)]
                elif kind == "cfrm":
                    texts += [["forged:flag", ref.b58check(raw[:5] + bytes([f]) + raw[6:])] for f in range(256)]
                    texts += [["forged:prefix", ref.b58check(raw[:i] + bytes([raw[i] ^ (1 << b)]) + raw[i + 1:])] for i in range(5) for b in range(8)]
                elif kind == "inter":
                    texts += [["forged:prefix", ref.b58check(raw[:i] + bytes([raw[i] ^ (1 << b)]) + raw[i + 1:])] for i in range(8) for b in range(8)]
                    texts += [["forged:prefix", ref.b58check(raw[:7] + bytes([b]) + raw[8:])] for b in range(256)]
                elif kind == "wif":
                    wp = len(ref.pfx(api.prefixes(c["coin"], c["net"])[0]))
                    body = raw[wp:wp + 32]
                    texts += [["forged:flag", ref.b58check(raw[:wp] + body + bytes([f]))] for f in range(256)]
                    texts += [["forged:prefix", ref.b58check(raw[:wp - 1] + bytes([b]) + raw[wp:])] for b in range(256)]
                texts += shapes(rng, c, raw, kind)
                for i in range(0, len(texts), 16):
                    if (i // 16) % nshards == shard:
                        yield dict(c, texts=texts[i:i + 16], control=None)
        return
    for i in range(phase.opts["n"]):
        kind = KINDS[i % len(KINDS)]
        c = make(rng, api, kind)
        s = valid(c, api)
        payload = ref.b58check_decode(s)
        full = ref.b58decode(s)
        texts = []
        for _ in range(5):
            k, t = mutate.edits(rng, s)
            texts.append(["edit:" + k, t])
        for _ in range(2):
            texts.append(["forged:checksum", ref.b58encode(payload + mutate.bad_checksum(rng, payload))])
            texts.append(["bit flip", ref.b58encode(mutate.flip(rng, full))])
        # right checksum, wrong shape
        cut = rng.randrange(len(payload))
        texts.append(["forged:length", ref.b58check(payload + rng.randbytes(rng.choice([1, 1, 2, 4, 16, 33])))])
        texts.append(["forged:length", ref.b58check(payload[:-rng.choice([1, 1, 2, 4, 8, 16])])])
        texts.append(["forged:length", ref.b58check(payload + rng.choice([b"\0", b"\1", b"\1\1", payload[-1:]]))])
        texts.append(["forged:length", ref.b58check(payload[:cut])])
        texts.append(["forged:length", ref.b58check(payload[:cut] + payload[cut + 1:])])
        texts.append(["forged:length", ref.b58check(b"\0" + payload)])
        if kind in ("nonec", "ec"):
            f = rng.choice([0x00, 0x20, 0x04, 0x24, 0x40, 0x80, 0x60, 0xA0, 0xC0, 0xE0, 0xC4, 0xE4, 0xC1, 0xE1, 0xE2, 0x01, 0x02, 0x21, 0x22, 0x84, rng.randrange(256)])
            texts.append(["forged:flag", ref.b58check(payload[:2] + bytes([f]) + payload[3:])])
            texts.append(["forged:prefix", ref.b58check(b"\x01" + bytes([payload[1] ^ 1]) + payload[2:])])
        elif kind == "cfrm":
            f = rng.choice([0x40, 0x80, 0xC0, 0xE0, 0x01, 0x02, 0x21, 0x22, 0x25, 0x60, rng.randrange(256)])
            texts.append(["forged:flag", ref.b58check(payload[:5] + bytes([f]) + payload[6:])])
        elif kind == "wif":
            wp = ref.pfx(api.prefixes(c["coin"], c["net"])[0])
            texts.append(["forged:flag", ref.b58check(wp + bytes.fromhex(c["priv"]) + bytes([rng.choice([0, 2, 3, 0x10, 0x80, 0xFF])]))])
            texts.append(["forged:length", ref.b58check(wp + bytes.fromhex(c["priv"]) + b"\1\1")])
            texts.append(["forged:length", ref.b58check(wp + bytes.fromhex(c["priv"])[1:] + b"\1")])
            texts.append(["forged:length", ref.b58check(wp + bytes.fromhex(c["priv"])[2:])])
        # the other kinds of string
        other = rng.choice([k for k in KINDS if k != kind])
        texts.append(["another kind of string", valid(dict(make(rng, api, other)), api)])
        texts.append(["arbitrary text", rng.choice(["", "1", "11111", " ", "None", "6P", "z" * rng.randrange(1, 90), "1" * rng.randrange(30, 80),
                                                    "".join(rng.choice(mutate.A) for _ in range(rng.randrange(1, 90))), gen.passphrase(rng)[0]])])
        yield dict(c, texts=texts, control=s)


def refused_by_model(c, api, t):
    """True if no operation may return a result for t on c's network."""
    k = c["what"]
    wp, ap = api.prefixes(c["coin"], c["net"])
    if k == "wif":
        d = ref.wif_decode(t, wp)
        return d is None
    if k == "address":
        raw = ref.b58check_decode(t)
        p = ref.pfx(ap)
        return raw is None or len(raw) != len(p) + 20 or not raw.startswith(p)
    raw = ref.b58check_decode(t)
    if k in ("nonec", "ec"):
        if raw is None or len(raw) != 39:
            return True
        if raw[:2] == b"\x01\x42":
            return raw[2] not in (0xC0, 0xE0)
        if raw[:2] == b"\x01\x43":
            return None if raw[2] & 0x18 and not raw[2] & ~0x3C else bool(raw[2] & ~0x3C)
        return True
    if k == "cfrm":
        if raw is None or len(raw) != 51 or raw[:5] != ref.CFRM:
            return True
        return None if raw[5] & 0x18 and not raw[5] & ~0x3C else bool(raw[5] & ~0x3C)
    if raw is None or len(raw) != 49 or raw[:8] not in (ref.MAGIC_LOT, ref.MAGIC_NOLOT):
        return True
    return ref.parse_pub(raw[16:]) is None


def offer(c, api, obs, t):
    """Every operation that takes this kind of string -> list of (operation, outcome)"""
    k = c["what"]
    kw = story.kw(c)
    coin = api.coin(c["coin"])
    wp, ap = api.prefixes(c["coin"], c["net"])
    inst = story.instance(c, api)
    if k == "wif":
        yield "encrypt", obs.call(inst.encrypt, t, c["pw"], **kw)
        yield "decode_wif", obs.call(api.wif.decode_wif, t, wif_prefix=wp)
        for f in ("wif_to_private_key", "get_wif_type", "get_wif_checksum"):
            yield f, obs.call(getattr(api.wif, f), t, cryptocurrency=coin, network=c["net"])
    elif k in ("nonec", "ec"):
        yield "decrypt", obs.call(inst.decrypt, t, c["pw"], **kw)
        yield "decrypt(detail=True)", obs.call(inst.decrypt, t, c["pw"], detail=True, **kw)
    elif k == "inter":
        yield "create_new_encrypted_wif", obs.call(inst.create_new_encrypted_wif, t, "wif-compressed" if c["comp"] else "wif", gen.unform(c["seed"]), **kw)
        yield "create_new_encrypted_wif, default seed", obs.call(inst.create_new_encrypted_wif, t, **kw)
    elif k == "cfrm":
        yield "confirm_code", obs.call(inst.confirm_code, c["pw"], t, **kw)
        yield "confirm_code(detail=True)", obs.call(inst.confirm_code, c["pw"], t, detail=True, **kw)
    else:
        yield "P2PKHAddress.decode", obs.call(api.addr.decode, t, address_prefix=ap)


def run(c, api, obs):
    obs.feature("kind:" + c["what"])
    if c["control"]:
        ok = all(e is None for _, (v, e) in offer(c, api, obs, c["control"]))
        if ok:
            obs.count("controls opened")
    for kind, t in c["texts"]:
        verdict = refused_by_model(c, api, t)
        if verdict is None:
            obs.count("left unspecified")
            continue
        if not verdict:
            obs.count("still well formed")
            if kind in ("forged:field", "forged:point"):
                obs.feature(kind)
                obs.nontrivial(t)
            # well formed for the format; if anything but the original is opened, it must be refused by the address hash
            if c["what"] in ("nonec", "ec", "cfrm") and t != c["control"]:
                for op, got in offer(c, api, obs, t):
                    v, e = got
                    if e is None:
                        model = model_opens(c, api, t)
                        if model is None:
                            obs.fail("%s opened a changed string (%s): %r -> %r" % (op, kind, t, v))
                    elif not isinstance(e, api.REFUSED):
                        obs.fail("%s raised %r for a changed string (%s): %r" % (op, e, kind, t))
            continue
        obs.feature(kind.split(" at ")[0])
        for op, got in offer(c, api, obs, t):
            obs.refused("%s of %r (%s of a valid %s)" % (op, t, kind, c["what"]), got, api.REFUSED)
        obs.nontrivial(t)


def model_opens(c, api, t):
    wp, ap = api.prefixes(c["coin"], c["net"])
    try:
        if c["what"] == "cfrm":
            return ref.confirm(c["pw"], t, ap, api.kdf, api.alphabet(c["coin"]))
        return ref.decrypt(t, c["pw"], wp, ap, api.kdf, api.alphabet(c["coin"]))
    except ref.Refused:
        return None
