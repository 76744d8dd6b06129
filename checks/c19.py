"""C19 - invalid parameters are refused before any result is produced."""
from lib import gen, ref, story
from lib.fw import Phase

PROP = "C19"
LEVEL = "exploration"
RULE = ("one case = one call with at least one parameter outside its domain, the others valid and varied (or, as a control, all valid); an invalid call has to raise a library error "
        "or ValueError, a control has to return what the model prescribes; distinct = distinct calls")
ASSUMPTIONS = ["domains are those of BIP38 and of the documented signatures", "empty salt and seed mean 'not given', as documented by their defaults; non-text, non-bytes arguments are left unspecified",
               "hex text with blanks between bytes is left unspecified"]
NEED = ("refusals observed", "controls compared", "bad:lot", "bad:sequence", "bad:only lot", "bad:only sequence", "bad:salt length", "bad:salt length with lot", "bad:4-byte salt without lot",
        "bad:salt text", "bad:seed length", "bad:seed text", "bad:wif type", "bad:key in WIF", "bad:raw key", "bad:pass point", "bad:several", "boundary:lot", "boundary:sequence")
P = 2 ** 256 - 2 ** 32 - 977


def phases(tier):
    q = tier == "quick"
    return [Phase("stub", "stub", 8, n=900 if q else 14000),
            Phase("every sequence and lots around every power of two", "stub", 8, n=0, sweep=True),
            Phase("real scrypt", "real", 2, n=25 if q else 300, order=0)]


def bad_lot(rng):
    v = rng.choice([0, 1, -1, 99999, 99998, 1000000, 1000001, 1048575, 1048576, 2 ** 20 + 100000, 2 ** 31, 2 ** 32, 2 ** 32 + 100000, 2 ** 64 + 100000, -100000, -999999, 10 ** 30,
                    10000, 65536, rng.randrange(0, 100000), rng.randrange(1000000, 1 << 20), rng.randrange(1 << 20, 1 << 40), -rng.randrange(1, 1 << 40)])
    return gen.number(rng, v, low=0.02, high=0.3)


def bad_seq(rng):
    return gen.number(rng, rng.choice([4096, 4097, -1, -4096, 8191, 8192, 65535, 65536, 2 ** 32, 2 ** 32 - 1, 2 ** 64, 4096 * 100000, -4095, rng.randrange(4096, 1 << 20), -rng.randrange(1, 1 << 40)]), low=0.02, high=0.3)


def not_in(n, *valid):
    return n + 1 if n in valid else n


def bad_text(rng, n):
    """text that is not n bytes of hex"""
    h = rng.randbytes(n).hex()
    i = rng.randrange(len(h))
    k = rng.randrange(9)
    if gen.lex().strs and rng.random() < gen.lex().rate(0.01, 0.2):
        w = rng.choice(gen.lex().strs)
        t = rng.choice([w + h, h + w, h[:i] + w + h[i:], w + h[len(w):], h[:-len(w)] + w, w])
        if not set(t) <= set("0123456789abcdefABCDEF \t\r\n\x0b\x0c"):
            return t
    if k == 0:
        return h[:-1]
    if k == 1:
        return h + rng.choice("0af")
    if k == 2:
        return h[:i] + rng.choice("ghxzGOoIl-._/:@`") + h[i + 1:]
    if k == 3:
        return "0x" + h
    if k == 4:
        return "0x" + h[2:]
    if k == 5:
        return h[:i] + rng.choice("\u0661\uff11\u00b2\u0430\u0451") + h[i + 1:]      # digits and letters that are not ASCII
    if k == 6:
        return "".join(rng.choice("ghijklmnopqrstuvwxyz") for _ in range(n))           # right length as raw text
    if k == 7:
        return "".join(rng.choice("ghijklmnopqrstuvwxyz") for _ in range(2 * n))
    return h[:i] + "\0" + h[i + 1:]


WTS = ["", "WIF", "Wif", "wif ", " wif", "wif_compressed", "wif-Compressed", "compressed", "uncompressed", "wif-uncompressed", "wif-compresse", "wif-compressedx", "wi", "0", "None", "wif\0", "wif\n"]


def one(rng, api, kind):
    """-> case with the named defect"""
    if kind in ("lot", "sequence", "only lot", "only sequence", "salt length", "salt length with lot", "4-byte salt without lot", "salt text", "boundary"):
        lot, seq = gen.lotseq(rng, none=0)
        c = dict(fn="intermediate", pw=gen.passphrase(rng)[0], lot=lot, seq=seq, salt={"hex": gen.salt(rng, rng.choice([4, 8])).hex()})
        if kind == "lot":
            c["lot"] = bad_lot(rng)
        elif kind == "sequence":
            c["seq"] = bad_seq(rng)
        elif kind == "only lot":
            c["seq"] = None
        elif kind == "only sequence":
            c["lot"] = None
            if rng.random() < 0.5:
                c["seq"] = 0
        elif kind == "salt length":
            c["lot"] = c["seq"] = None
            c["salt"] = gen.data_form(rng, gen.salt(rng, not_in(gen.number(rng, rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 12, 15, 16, 17, 24, 32, 33, 64]), 1, 400), 4, 8)))
        elif kind == "salt length with lot":
            c["salt"] = gen.data_form(rng, gen.salt(rng, not_in(gen.number(rng, rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 12, 15, 16, 17, 24, 32, 33, 64]), 1, 400), 4, 8)))
        elif kind == "4-byte salt without lot":
            c["lot"] = c["seq"] = None
            c["salt"] = gen.data_form(rng, gen.salt(rng, 4))
        elif kind == "salt text":
            if rng.random() < 0.5:
                c["lot"] = c["seq"] = None
            c["salt"] = {"hex": bad_text(rng, rng.choice([4, 8, 8]))}
        elif rng.random() < 0.3:
            c["salt"] = None
        if kind in ("lot", "sequence", "only lot", "only sequence") and rng.random() < 0.2:
            c["salt"] = None
        return c
    c = story.ec_case(rng, api, fn="create")
    if kind == "seed length":
        c["seed"] = gen.data_form(rng, gen.shaped(rng, not_in(gen.number(rng, rng.choice([2, 3, 4, 8, 12, 15, 16, 20, 22, 23, 25, 26, 28, 31, 32, 33, 47, 48, 64, 96]), 1, 400), 24)))
    elif kind == "seed text":
        c["seed"] = {"hex": bad_text(rng, 24)}
    elif kind == "wif type":
        c["wt"] = rng.choice(WTS)
        if gen.lex().strs and rng.random() < gen.lex().rate(0.05, 0.3):
            w = rng.choice(gen.lex().strs)
            c["wt"] = w if w not in ("wif", "wif-compressed") else w.upper()
        if rng.random() < 0.4:
            c["fn"] = "private_key_to_wif"
            c["priv"] = gen.key(rng).hex()
    elif kind in ("key in WIF", "raw key"):
        v = rng.choice([0, 0, ref.N, ref.N, ref.N + 1, ref.N + 2, 2 ** 256 - 1, P, P - 1, 2 ** 256 - 2 ** 32, rng.randrange(ref.N, 2 ** 256)])
        c["priv"] = v.to_bytes(32, "big").hex()
        c["fn"] = "encrypt" if kind == "key in WIF" else "PrivateKey.from_bytes"
    elif kind == "pass point":
        k = rng.randrange(8)
        x = rng.randrange(1, P)
        while ref_on_curve(x):
            x = rng.randrange(1, P)
        good = ref.pubkey(gen.key(rng), True)
        pt = [bytes([rng.choice([2, 3])]) + x.to_bytes(32, "big"),
              bytes([rng.choice([0, 1, 4, 5, 6, 7, 0x82, 0xFF, rng.randrange(4, 256)])]) + good[1:],
              bytes([2]) + rng.choice([P, P + 1, P + 2, 2 ** 256 - 1]).to_bytes(32, "big"),
              bytes(33), b"\2" + bytes(32), b"\3" + b"\xff" * 32,
              bytes([2]) + (P + int.from_bytes(small_x(), "big")).to_bytes(32, "big"),
              b"\0" + good[1:]][k]
        c["point"] = pt.hex()
    return c


def small_x():
    """x coordinate below 2^32 that is on the curve: x + p still fits 32 bytes, an alias"""
    for x in range(1, 100):
        if ref_on_curve(x):
            return x.to_bytes(32, "big")


def ref_on_curve(x):
    y2 = (pow(x, 3, P) + 7) % P
    return pow(y2, (P - 1) // 2, P) in (0, 1)


KINDS = ("lot", "lot", "sequence", "sequence", "only lot", "only sequence", "salt length", "salt length with lot", "4-byte salt without lot", "salt text", "seed length", "seed text", "wif type",
         "key in WIF", "raw key", "pass point", "boundary", "control", "several")


def cases(phase, rng, shard, nshards, tier, api):
    if phase.opts.get("sweep"):
        lots = sorted({v for k in range(0, 40) for d in (-1, 0, 1) for v in (2 ** k + d, 100000 + d, 999999 + d, 2 ** k + 100000 + d)})
        base = dict(fn="intermediate", kind="sweep", salt={"hex": "a1b2c3d4"}, pw="sweep")
        todo = [dict(base, lot=v, seq=5) for v in lots] + [dict(base, lot=-v, seq=5) for v in lots]
        todo += [dict(base, lot=100000 + 37 * s % 900000, seq=s) for s in list(range(-3, 40)) + list(range(4090, 4100)) + list(range(0, 4096, 23 if tier == "quick" else 1))]
        for n in range(1, 70):
            todo.append(dict(base, lot=100000, seq=1, salt={"hex": "5c" * n}))
            todo.append(dict(base, lot=None, seq=None, salt={"hex": "5c" * n}))
            todo.append(dict(base, lot=None, seq=None, salt={"bytes": "5c" * n}))
            c = story.ec_case(rng, api, fn="create", kind="sweep")
            c["seed"] = {rng.choice(["hex", "bytes"]): "c5" * n}
            todo.append(c)
        yield from todo[shard::nshards]
        return
    for i in range(phase.opts["n"]):
        kind = KINDS[(i + 5 * shard) % len(KINDS)]
        if kind == "several":
            a, b = rng.choice([("lot", "sequence"), ("lot", "salt length with lot"), ("sequence", "salt text"), ("seed length", "wif type"), ("seed text", "pass point"), ("wif type", "pass point")])
            c = one(rng, api, a)
            d = one(rng, api, b)
            c.update({k: v for k, v in d.items() if k in dict(sequence=("seq",), **{"salt length with lot": ("salt",), "salt text": ("salt",), "wif type": ("wt",), "pass point": ("point",)})[b]})
            c["fn"] = "intermediate" if a in ("lot", "sequence") else "create"
        elif kind == "control":
            c = one(rng, api, rng.choice(["boundary", "ok create"]))
        else:
            c = one(rng, api, kind)
        c["kind"] = kind
        yield c


# ------------------------------------------------------------------ judging
def hexlen(form):
    """-> bytes the argument stands for, or None if it stands for none"""
    if form is None:
        return None
    try:
        return bytes.fromhex(form.get("bytes") or form["hex"])
    except ValueError:
        return None


def run(c, api, obs):
    globals()["do_" + c["fn"].replace(".", "_")](c, api, obs)
    obs.nontrivial(c)
    if c["kind"] not in ("boundary", "control", "sweep"):
        obs.feature("bad:" + c["kind"])


def do_intermediate(c, api, obs):
    lot, seq, salt = c["lot"], c["seq"], c["salt"]
    kw = {}
    if lot is not None:
        kw["lot"] = lot
    if seq is not None:
        kw["sequence"] = seq
    if salt is not None:
        kw["owner_salt"] = gen.unform(salt)
    raw = hexlen(salt)
    valid = (lot is None) == (seq is None)
    valid = valid and (lot is None or (100000 <= lot <= 999999 and 0 <= seq <= 4095))
    valid = valid and (salt is None or (raw is not None and (len(raw) == 8 or len(raw) == 4 and lot is not None)))
    got = obs.call(api.BIP38.intermediate_code, c["pw"], **kw)
    if not valid:
        obs.refused("intermediate_code(lot=%r, sequence=%r, owner_salt=%r)" % (lot, seq, gen.unform(salt)), got, api.REFUSED)
        return
    obs.count("controls compared")
    if lot is not None:
        if lot in (100000, 999999):
            obs.feature("boundary:lot")
        if seq in (0, 4095):
            obs.feature("boundary:sequence")
    if salt is None:
        if got[1] is not None:
            obs.fail("intermediate_code(lot=%r, sequence=%r) raised %r" % (lot, seq, got[1]))
        pay = ref.b58check_decode(got[0])
        raw = pay[8:12] if lot is not None else pay[8:16]
    obs.equal("intermediate_code(lot=%r, sequence=%r, owner_salt=%r)" % (lot, seq, gen.unform(salt)), got, ref.intermediate(c["pw"], raw, lot, seq, api.kdf)[0])


def do_create(c, api, obs):
    inter = ref.intermediate(c["pw"], gen.raw(c["salt"]), c["lot"], c["seq"], api.kdf)[0]
    if "point" in c:
        pay = ref.b58check_decode(inter)
        inter = ref.b58check(pay[:16] + bytes.fromhex(c["point"]))
    wt = c.get("wt", "wif-compressed" if c["comp"] else "wif")
    raw = hexlen(c["seed"])
    got = obs.call(story.instance(c, api).create_new_encrypted_wif, inter, wt, gen.unform(c["seed"]), **story.kw(c))
    if raw is not None and len(raw) == 24 and wt in ("wif", "wif-compressed") and "point" not in c:
        obs.count("controls compared")
        ap = api.prefixes(c["coin"], c["net"])[1]
        obs.equal("create_new_encrypted_wif", got, ref.create(inter, c["comp"], raw, ap, api.kdf, api.alphabet(c["coin"]))[0])
    else:
        obs.refused("create_new_encrypted_wif(%r, %r, seed=%r)" % (inter, wt, gen.unform(c["seed"])), got, api.REFUSED)


def do_encrypt(c, api, obs):
    wp = api.prefixes(c["coin"], c["net"])[0]
    wif = ref.wif_encode(bytes.fromhex(c["priv"]), wp, c["comp"])
    obs.refused("encrypt of the WIF of private key %s" % c["priv"], obs.call(story.instance(c, api).encrypt, wif, c["pw"], **story.kw(c)), api.REFUSED)


def do_private_key_to_wif(c, api, obs):
    priv = bytes.fromhex(c["priv"])
    obs.refused("private_key_to_wif(%s, %r)" % (c["priv"], c["wt"]), obs.call(api.wif.private_key_to_wif, priv if c["comp"] else c["priv"], c["wt"]), api.REFUSED)


def do_PrivateKey_from_bytes(c, api, obs):
    obs.refused("PrivateKey.from_bytes(%s)" % c["priv"], obs.call(api.secp.PrivateKey.from_bytes, bytes.fromhex(c["priv"])), api.REFUSED)
