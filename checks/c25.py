"""C25 - an error says what is wrong: the passphrase, the string, the network or a parameter."""
import copy
import pickle
import traceback

from checks import c09
from lib import gen, mutate, ref, story
from lib.fw import Phase

PROP = "C25"
LEVEL = "exploration"
RULE = ("one case = one operation with exactly one thing wrong (passphrase, string, network name, coin class, lot or sequence, salt, seed, WIF type, key bytes, address); the error raised has to "
        "be of the class for that cause, to be printable and to survive pickling and copying; or one error object built from random fields; distinct = distinct calls")
ASSUMPTIONS = ["causes and their classes are those of the error messages and class names of bip38.exceptions; where several classes would do (salt, lot, seed) any library error that is not about "
               "something else is accepted", "exactly one thing is wrong per call: the order in which several are noticed is left unspecified"]
CAUSES = ("passphrase", "network of other prefix", "damaged encrypted key", "damaged confirmation code", "damaged intermediate code", "damaged WIF", "WIF of another network", "unknown network",
          "not a coin", "lot", "sequence", "salt", "seed", "WIF type", "private key", "public key", "address", "error object")
NEED = tuple("cause:" + c for c in CAUSES) + ("errors classified", "errors pickled")


def phases(tier):
    q = tier == "quick"
    return [Phase("stub", "stub", 8, n=1100 if q else 20000), Phase("real scrypt", "real", 2, n=12 if q else 150)]


def cases(phase, rng, shard, nshards, tier, api):
    for i in range(phase.opts["n"]):
        cause = CAUSES[(i + shard) % len(CAUSES)] if phase.kdf == "stub" else rng.choice(CAUSES[:4])
        c = story.ec_case(rng, api)
        c["priv"] = gen.key(rng).hex()
        if rng.random() < 0.5 or cause not in ("passphrase", "network of other prefix"):
            c.update(coin="Bitcoin", net="mainnet", inst="mainnet", arg=None, fresh=False)
        yield dict(c, cause=cause, r=rng.randrange(1 << 40))


def run(c, api, obs):
    import random
    rng = random.Random(c["r"])
    obs.feature("cause:" + c["cause"])
    X = api.exc
    ABOUT = (X.PassphraseError, X.NetworkError, X.CryptocurrencyError, X.WIFError, X.AddressError, X.Secp256k1Error)

    def expect(what, got, kinds, never=(), values=False):
        v, e = got
        obs.count("errors classified")
        if e is None:
            obs.fail("%s: returned %r instead of being refused" % (what, v))
        ok = kinds + ((ValueError,) if values else ())
        if not isinstance(e, ok) or isinstance(e, never):
            obs.fail("%s: raised %s(%s), which is not the error for this (%s)" % (what, type(e).__name__, str(e)[:200], c["cause"]))
        printable(what, e)

    def printable(what, e):
        try:
            s, r = str(e), repr(e)
            "".join(traceback.format_exception(e))
        except Exception as x:
            obs.fail("%s: its error cannot be printed: %r" % (what, x))
        if not s.strip() or not r.strip():
            obs.fail("%s: its error %r says nothing" % (what, e))
        if isinstance(e, X.Error):
            for how, f in (("pickled", lambda: pickle.loads(pickle.dumps(e))), ("copied", lambda: copy.copy(e)), ("deep-copied", lambda: copy.deepcopy(e))):
                try:
                    again = f()
                except Exception as x:
                    obs.fail("%s: its error cannot be %s: %r" % (what, how, x))
                if type(again) is not type(e) or str(again) != s:
                    obs.fail("%s: its error, %s, became %r" % (what, how, again))
            obs.count("errors pickled")

    cause = c["cause"]
    B = story.instance(c, api)
    kw = story.kw(c)
    key = None
    if cause == "error object":
        classes = [X.Error] + list(ABOUT)
        for cls in classes:
            if not issubclass(cls, X.Error) or not issubclass(cls, Exception):
                obs.fail("%s is not one of the library's errors" % cls.__name__)
        for a in ABOUT:
            for b in ABOUT:
                if a is not b and issubclass(a, b):
                    obs.fail("%s is a kind of %s" % (a.__name__, b.__name__))
        cls = rng.choice(classes)
        pieces = ["Wrong %s", "{0}", "\u00e9\U0001f600", "a, b", "x" * 300, "m", "a | b", "\\n", "it's"]
        m = rng.choice(pieces) + str(rng.randrange(1000))
        d = rng.choice([None, None, "detail %s {x}" % rng.randrange(1000)])
        ex = rng.choice([None, "expected-%d" % rng.randrange(1000), rng.randrange(1, 99), ["one-%d" % rng.randrange(99), "two"], ["alone"], [1, 2, 3]])
        g = rng.choice([None, "got-%d" % rng.randrange(1000), rng.randrange(1, 99), b"\0\xff", [1]])
        kws = {k: v for k, v in (("detail", d), ("expected", ex), ("got", g)) if v is not None}
        e = cls(m, **kws)
        printable("%s(%r, %r)" % (cls.__name__, m, kws), e)
        s = str(e)
        want = [m] + ([d] if d else [])
        if ex is not None and g is not None:
            want += [str(x) for x in (ex if isinstance(ex, list) else [ex])] + [str(g)]
        for w in want:
            if w not in s:
                obs.fail("str(%s(%r, **%r)) is %r: %r is missing" % (cls.__name__, m, kws, s, w))
        obs.count("errors classified")
        obs.nontrivial((cause, cls.__name__, m, d, str(ex), str(g)))
        return
    if cause in ("passphrase", "network of other prefix"):
        enc, d, _ = story.nonec_model(c, api)
        inter, _ = story.inter_model(c, api)
        made, _ = story.create_model(c, api, inter)
        pw, kw2, on = c["pw"], kw, B
        if cause == "passphrase":
            misses = gen.near_misses(rng, c["pw"])
            kind, pw = rng.choice(misses)
        else:
            if isinstance(c["coin"], dict):
                c = dict(c, coin="Bitcoin", net="mainnet", inst="mainnet")
                return run(c, api, obs)
            mine = api.prefixes(c["coin"], c["net"])[1]
            others = [(a, b) for a, b in api.pairs if api.golden[a][b][1] != mine]
            a, b = rng.choice(others)
            on = api.instance(a, b)
            kw2 = {}
        det = rng.random() < 0.5
        for name, f in (("decrypt of an encrypted key", lambda: on.decrypt(enc, pw, detail=det, **kw2)),
                        ("decrypt of an EC-multiplied key", lambda: on.decrypt(made["encrypted_wif"], pw, detail=det, **kw2)),
                        ("confirm_code", lambda: on.confirm_code(pw, made["confirmation_code"], detail=det, **kw2))):
            expect("%s, %s" % (name, cause), obs.call(f), (X.PassphraseError,))
        key = (enc, pw)
    elif cause.startswith("damaged"):
        kinds = {"damaged encrypted key": ("nonec", "ec"), "damaged confirmation code": ("cfrm",), "damaged intermediate code": ("inter",), "damaged WIF": ("wif",)}[cause]
        kind = rng.choice(kinds)
        c = dict(c, what=kind)
        s = c09.valid(c, api)
        payload = ref.b58check_decode(s)
        texts = [mutate.edits(rng, s)[1] for _ in range(3)]
        texts.append(ref.b58encode(payload + mutate.bad_checksum(rng, payload)))
        texts.append(ref.b58check(payload[:rng.randrange(1, len(payload))]))
        texts.append(ref.b58check(payload + rng.randbytes(rng.randrange(1, 9))))
        if kind in ("nonec", "ec"):
            texts.append(ref.b58check(payload[:2] + bytes([rng.choice([0x01, 0x40, 0x80, 0xC1, 0xE1, 0xE2, 0xFF, 0x02])]) + payload[3:]))
            texts.append(ref.b58check(b"\x01" + bytes([rng.choice([0x41, 0x44, 0x00, 0xFF])]) + payload[2:]))
        elif kind == "cfrm":
            texts.append(ref.b58check(payload[:5] + bytes([rng.choice([0x01, 0x40, 0xC0, 0xE0, 0xFF])]) + payload[6:]))
        for t in texts:
            if not c09.refused_by_model(c, api, t):
                continue
            if kind in ("nonec", "ec"):
                raw = ref.b58check_decode(t)
                want = (X.WIFError,) if raw is None or len(raw) != 39 else (X.Error,)
                expect("decrypt(%r)" % t, obs.call(B.decrypt, t, c["pw"]), want, (X.PassphraseError, X.NetworkError, X.CryptocurrencyError, X.AddressError))
            elif kind == "cfrm":
                expect("confirm_code(%r)" % t, obs.call(B.confirm_code, c["pw"], t), (X.Error,), (X.PassphraseError, X.NetworkError, X.CryptocurrencyError, X.AddressError))
            elif kind == "inter":
                expect("create_new_encrypted_wif(%r)" % t, obs.call(B.create_new_encrypted_wif, t, seed=gen.unform(c["seed"])), (X.Error,),
                       (X.NetworkError, X.CryptocurrencyError, X.AddressError))
            else:
                expect("encrypt(%r)" % t, obs.call(B.encrypt, t, c["pw"]), (X.WIFError,))
                for f in (api.wif.wif_to_private_key, api.wif.get_wif_type, api.wif.get_wif_checksum):
                    expect("%s(%r)" % (f.__name__, t), obs.call(f, t), (X.WIFError,))
                expect("decode_wif(%r)" % t, obs.call(api.wif.decode_wif, t), (X.WIFError,))
            obs.nontrivial((cause, t))
        return
    elif cause == "WIF of another network":
        a, b = rng.choice([(a, b) for a, b in api.pairs if api.golden[a][b][0] != 0x80])
        t = ref.wif_encode(bytes.fromhex(c["priv"]), api.golden[a][b][0], c["comp"])
        expect("encrypt(%r)" % t, obs.call(B.encrypt, t, c["pw"]), (X.WIFError,))
        expect("get_wif_type(%r)" % t, obs.call(api.wif.get_wif_type, t), (X.WIFError,))
        key = t
    elif cause == "unknown network":
        enc, d, _ = story.nonec_model(c, api)
        bad = rng.choice(["nonet", "Mainnet", "MAINNET", "mainnet ", " mainnet", "test", "main", "regtest2", "mainnet\0", "testnet3", "0", "Bitcoin", "main-net"])
        for name, f in (("BIP38(Bitcoin, %r)", lambda: api.BIP38(api.coins.Bitcoin, bad)), ("encrypt(network=%r)", lambda: B.encrypt(d["wif"], c["pw"], bad)),
                        ("decrypt(network=%r)", lambda: B.decrypt(enc, c["pw"], bad)), ("decrypt(network=%r) with detail", lambda: B.decrypt(enc, c["pw"], network=bad, detail=True))):
            expect(name % bad, obs.call(f), (X.NetworkError,))
        inter, _ = story.inter_model(c, api)
        made, _ = story.create_model(c, api, inter)
        expect("create_new_encrypted_wif(network=%r)" % bad, obs.call(B.create_new_encrypted_wif, inter, network=bad), (X.NetworkError,))
        expect("confirm_code(network=%r)" % bad, obs.call(B.confirm_code, c["pw"], made["confirmation_code"], bad), (X.NetworkError,))
        key = (bad, enc)
    elif cause == "not a coin":
        bad = rng.choice([int, str, object, dict, Exception, type, type("Bitcoin", (), {"NETWORKS": {"mainnet": {"wif_prefix": 128, "address_prefix": 0}}}), api.BIP38, ValueError])
        expect("BIP38(%r)" % bad, obs.call(api.BIP38, bad), (X.CryptocurrencyError,))
        key = (repr(bad), c["r"])
    elif cause in ("lot", "sequence", "salt"):
        lot, seq = gen.lotseq(rng, none=0)
        salt = gen.unform(gen.data_form(rng, gen.salt(rng)))
        if cause == "lot":
            lot = rng.choice([0, 99999, 1000000, -1, rng.randrange(1000000, 1 << 40), rng.randrange(0, 100000)])
        elif cause == "sequence":
            seq = rng.choice([4096, -1, 65536, rng.randrange(4096, 1 << 40)])
        else:
            n = rng.choice([1, 2, 3, 5, 6, 7, 9, 12, 16, 32])
            salt = rng.randbytes(n) if rng.random() < 0.5 else rng.randbytes(n).hex()
        args = dict(lot=lot, sequence=seq, owner_salt=salt)
        if cause == "salt" and rng.random() < 0.5:
            args = dict(owner_salt=salt)
        elif rng.random() < 0.2 and cause != "salt":
            args.pop("lot" if cause == "sequence" else "sequence")
        expect("intermediate_code(%r)" % args, obs.call(api.BIP38.intermediate_code, c["pw"], **args), (X.Error,), ABOUT)
        key = repr(args)
    elif cause == "seed":
        inter, _ = story.inter_model(c, api)
        n = rng.choice([1, 8, 16, 20, 23, 25, 32, 48, 64])
        seed = rng.randbytes(n) if rng.random() < 0.5 else rng.randbytes(n).hex()
        expect("create_new_encrypted_wif(seed=%r)" % seed, obs.call(B.create_new_encrypted_wif, inter, "wif", seed), (X.Error,), ABOUT)
        key = repr(seed)
    elif cause == "WIF type":
        inter, _ = story.inter_model(c, api)
        wt = rng.choice(["", "WIF", "compressed", "uncompressed", "wif_compressed", "wif-uncompressed", "hex", "wif "])
        if wt:
            expect("create_new_encrypted_wif(wif_type=%r)" % wt, obs.call(B.create_new_encrypted_wif, inter, wt, gen.unform(c["seed"])), (X.WIFError,))
        expect("private_key_to_wif(wif_type=%r)" % wt, obs.call(api.wif.private_key_to_wif, c["priv"], wt), (X.WIFError,))
        key = (wt, c["priv"])
    elif cause == "private key":
        k = rng.choice([bytes(32), ref.N.to_bytes(32, "big"), (ref.N + rng.randrange(1, 1 << 100)).to_bytes(32, "big"), b"\xff" * 32, rng.randbytes(31), rng.randbytes(33), rng.randbytes(64), rng.randbytes(1)])
        expect("PrivateKey.from_bytes(%s)" % k.hex(), obs.call(api.secp.PrivateKey.from_bytes, k), (X.Secp256k1Error,))
        if len(k) != 32:
            expect("encode_wif(%s)" % k.hex(), obs.call(api.wif.encode_wif, k), (X.Secp256k1Error,))
        key = k
    elif cause == "public key":
        pub = ref.pubkey(bytes.fromhex(c["priv"]), c["comp"])
        k = rng.choice([bytes([rng.choice([0, 1, 5, 8, 255])]) + pub[1:], pub[:-1], pub + b"\0", b"\2" + b"\xff" * 32, rng.randbytes(10), b"\4" + rng.randbytes(64), b"\2" + (5).to_bytes(32, "big")])
        if ref.parse_pub(k) is None and not (len(k) == 65 and k[0] in (6, 7)):
            expect("PublicKey.from_bytes(%s)" % k.hex(), obs.call(api.secp.PublicKey.from_bytes, k), (X.Secp256k1Error,))
        x, y = rng.getrandbits(256), rng.getrandbits(256)
        expect("Point.from_coordinates(%d, %d)" % (x, y), obs.call(api.secp.Point.from_coordinates, x, y), (X.Secp256k1Error,))
        key = k
    else:
        pub = ref.pubkey(bytes.fromhex(c["priv"]), c["comp"])
        a = rng.choice([ref.address(pub, rng.choice([5, 48, 111, 0x1CB8])), ref.b58check(b"\0" + rng.randbytes(rng.choice([19, 21, 32, 0])))])
        expect("P2PKHAddress.decode(%r)" % a, obs.call(api.addr.decode, a), (X.AddressError,))
        t = mutate.edits(rng, ref.address(pub, 0))[1]
        if c09.refused_by_model(dict(what="address", coin="Bitcoin", net="mainnet"), api, t):
            expect("P2PKHAddress.decode(%r)" % t, obs.call(api.addr.decode, t), (X.AddressError,), (), values=True)
        key = (a, t)
    obs.nontrivial((cause, key))
