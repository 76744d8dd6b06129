"""C08 - passphrases are NFC-normalised Unicode text, taken in full."""
import unicodedata

from lib import gen, ref, story
from lib.fw import Phase

PROP = "C08"
LEVEL = "exploration"
RULE = ("one case = one passphrase, its canonically equivalent respellings (which must give the same codes and strings and open each other's) and its "
        "near misses (which must give the model's, i.e. different, codes), in all four passphrase-taking operations; "
        "distinct = distinct (spelling, operation)")
ASSUMPTIONS = ["the Unicode tables of this Python's unicodedata define canonical equivalence",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)",
               "trailing NUL characters, which scrypt's HMAC cannot distinguish, are not tried as a difference"]
NEED = ("results compared with the model", "respelling: NFD", "respelling: singletons", "respelling: mark order", "sensitivity: NFKC", "sensitivity: truncate 64",
        "BMP and astral sweep", "lone surrogate", "long decomposed text")


def phases(tier):
    q = tier == "quick"
    return [Phase("real-scrypt", "real", 8, n=1 if q else 12),
            Phase("stub", "stub", 8, n=240 if q else 5000),
            Phase("stub, every code point with a decomposition", "stub", 8, sweep=True)]


# explicit pairs, so that the expectation does not rest on unicodedata alone: (spelling, NFC UTF-8 hex)
FIXED = [
    ("\u03d2\u0301\u0000\U00010400\U0001f4a9", "cf9300f0909080f09f92a9"),          # BIP38's own example
    ("e\u0301", "c3a9"), ("\u212b", "c385"), ("A\u030a", "c385"), ("\u1112\u1161\u11ab", "ed959c"),
    ("\ufb01", "efac81"), ("\u2126", "cea9"), ("a\u0323\u0307", "e1baa1cc87"), ("a\u0307\u0323", "e1baa1cc87"),
    ("\u0958", "e0a495e0a4bc"), ("\uff21", "efbca1"), ("\u00df", "c39f"), ("\U0001d15e", "f09d8597f09d85a5"), ("\u1e9b\u0323", "e1ba9bcca3"),
]


def cases(phase, rng, shard, nshards, tier, api):
    if phase.opts.get("sweep"):
        cps = [i for i in range(0x110000) if not 0xD800 <= i < 0xE000 and
               (unicodedata.decomposition(chr(i)) or unicodedata.combining(chr(i)))]
        block = 24
        groups = [cps[i:i + block] for i in range(0, len(cps), block)]
        for i, g in enumerate(groups):
            if i % nshards == shard:
                yield dict(sweep=g)
        # characters without any mapping, in blocks: every one has to reach the KDF unchanged
        step = 61 if tier == "quick" else 3
        rest = [i for i in range(1, 0x110000, step) if not 0xD800 <= i < 0xE000]
        for i in range(0, len(rest), 64):
            if (i // 64) % nshards == shard:
                yield dict(sweep=rest[i:i + 64])
        if shard == 0:
            for s, h in FIXED:
                yield dict(fixed=s, hex=h)
        return
    if phase.kdf != "real":
        for i in range(phase.opts["n"] // 12):
            yield dict(long=long_text(rng))
            s = gen.passphrase(rng, rng.choice(["ascii", "composed", "astral"]))[0]
            yield dict(lone=s, at=rng.randrange(len(s) + 1))
    for i in range(phase.opts["n"]):
        c = story.ec_case(rng, api)
        kind = rng.choice("composed decomposed singleton marks hangul mixed cased compat space long long64 long-unicode nul astral hexlike ascii".split())
        c["pw"], c["kind"] = gen.passphrase(rng, kind)
        c["priv"] = gen.key(rng).hex()
        re = gen.respellings(rng, c["pw"])
        mi = gen.near_misses(rng, c["pw"])
        rng.shuffle(re)
        rng.shuffle(mi)
        lim = (1, 1) if phase.kdf == "real" else (2, 3)
        if phase.kdf != "real" and rng.random() < 0.5:
            # the classic implementation slips, always tried
            pri = [m for m in mi if m[0] in ("NFKC", "lower", "upper", "strip", "truncate 64", "casefold", "no marks", "ascii only")]
            mi = pri + [m for m in mi if m not in pri]
        c["same"] = [list(x) for x in re[:lim[0]]]
        c["diff"] = [list(x) for x in mi[:lim[1]]]
        yield c


def long_text(rng):
    """long text where nearly every place is inside of a character written with marks: wherever it were cut, it would show"""
    n = gen.number(rng, rng.choice([40, 70, 130, 260, 520, 1030, 2050, 4100, 8200, 70000, rng.randrange(20, 3000)]), 8, 70000, 0, 0.4)
    unit = rng.choice(["e\u0301", "e\u0301", "a\u0323\u0307", "o\u0302\u0301", "\u1112\u1161\u11ab", "\u30ab\u3099"])
    s = unit * (n // len(unit) + 2)
    i = rng.randrange(len(unit))
    return rng.choice(["", "x", "\U0001f600", "xy"]) + s[:n + i]


def inter(api, obs, pw):
    return obs.call(api.BIP38.intermediate_code, pw, owner_salt="00112233445566ff")


def inter_want(api, pw_b):
    salt = bytes.fromhex("00112233445566ff")
    pf = api.kdf(pw_b, salt, 16384, 8, 8, 32)
    return ref.b58check(ref.MAGIC_NOLOT + salt + ref.pubkey(pf, True))


def run(c, api, obs):
    if "sweep" in c:
        obs.feature("BMP and astral sweep")
        obs.count("code points swept", len(c["sweep"]))
        s = "".join(chr(x) + "." for x in c["sweep"])
        want = inter_want(api, ref.pw_bytes(s))
        obs.equal("intermediate_code(code points %s)" % [hex(x) for x in c["sweep"][:4]], inter(api, obs, s), want)
        t = unicodedata.normalize("NFD", s)
        obs.equal("intermediate_code(NFD of those)", inter(api, obs, t), want)
        obs.nontrivial(s)
        return
    if "long" in c:
        obs.feature("long decomposed text")
        s = c["long"]
        want = inter_want(api, ref.pw_bytes(s))
        obs.equal("intermediate_code of %d characters" % len(s), inter(api, obs, s), want)
        obs.equal("intermediate_code of the NFC of %d characters" % len(s), inter(api, obs, unicodedata.normalize("NFC", s)), want)
        inst = api.instance("Bitcoin", "mainnet")
        priv = ref.sha256(s.encode())
        wif = ref.wif_encode(priv, 0x80, True)
        enc = ref.encrypt(priv, True, 0, s, api.kdf, ref.BTC_ALPHABET)[0]
        obs.equal("encrypt with %d characters" % len(s), obs.call(inst.encrypt, wif, s), enc)
        obs.equal("decrypt with %d characters" % len(s), obs.call(inst.decrypt, enc, s), wif)
        obs.nontrivial(s)
        return
    if "lone" in c:                                     # code points that are no characters: refused, or as different as any other
        obs.feature("lone surrogate")
        s, i = c["lone"], c["at"]
        inst = api.instance("Bitcoin", "mainnet")
        wif = ref.wif_encode(ref.sha256(s.encode()), 0x80, True)
        seen = {}
        for x in ("", "\ud800", "\udbff", "\udc41", "\udcff", "\udfff", "?", "\ufffd", "\\ud800", "&#55296;"):
            t = s[:i] + x + s[i:]
            for what, (v, e) in (("intermediate_code", inter(api, obs, t)), ("encrypt", obs.call(inst.encrypt, wif, t))):
                if e is None:
                    if seen.setdefault((what, v), x) != x:
                        obs.fail("%s gives the same for %a and %a" % (what, t, s[:i] + seen[what, v] + s[i:]))
                elif not x or x.isascii() or x == "\ufffd":
                    obs.fail("%s of %a raised %r" % (what, t, e))
        obs.nontrivial(("lone", s, i))
        return
    if "fixed" in c:
        obs.feature("fixed pair")
        obs.equal("intermediate_code(%a)" % c["fixed"], inter(api, obs, c["fixed"]), inter_want(api, bytes.fromhex(c["hex"])))
        obs.nontrivial(c["fixed"])
        return
    obs.feature("passphrase:" + c["kind"])
    inst = story.instance(c, api)
    kw = story.kw(c)
    code, ii = story.inter_model(c, api)
    made, info = story.create_model(c, api, code)
    det = story.ec_detail(c, api, ii, made, info)
    enc, ndet, _ = story.nonec_model(c, api)
    args = dict(owner_salt=gen.unform(c["salt"]))
    if c["lot"] is not None:
        args.update(lot=c["lot"], sequence=c["seq"])
    for kind, pw in [["itself", c["pw"]]] + c["same"]:
        what = "respelling: " + kind
        obs.feature(what)
        obs.equal("intermediate_code, " + what, obs.call(api.BIP38.intermediate_code, pw, **args), code)
        obs.equal("encrypt, " + what, obs.call(inst.encrypt, ndet["wif"], pw, **kw), enc)
        obs.equal("decrypt, " + what, obs.call(inst.decrypt, enc, pw, **kw), ndet["wif"])
        obs.equal("decrypt EC, " + what, obs.call(inst.decrypt, made["encrypted_wif"], pw, **kw), det["wif"])
        obs.equal("confirm_code, " + what, obs.call(inst.confirm_code, pw, made["confirmation_code"], **kw), made["address"])
        obs.nontrivial((pw, c["salt"]))
    for kind, pw in c["diff"]:
        what = "sensitivity: " + kind
        obs.feature(what)
        d = dict(c, pw=pw)
        obs.equal("intermediate_code, " + what, obs.call(api.BIP38.intermediate_code, pw, **args), story.inter_model(d, api)[0])
        obs.equal("encrypt, " + what, obs.call(inst.encrypt, ndet["wif"], pw, **kw), story.nonec_model(d, api)[0])
        obs.refused("decrypt, " + what, obs.call(inst.decrypt, enc, pw, **kw), api.REFUSED)
        obs.refused("confirm_code, " + what, obs.call(inst.confirm_code, pw, made["confirmation_code"], **kw), api.REFUSED)
        obs.nontrivial((pw, c["salt"]))
