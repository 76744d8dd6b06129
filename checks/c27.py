"""C27 - however a call is written, it means the same."""
import copy
import enum
import functools
import json
import operator
import pickle
import random
from collections import OrderedDict
from types import MappingProxyType

from lib import gen, ops, ref
from lib.fw import Phase, short

PROP = "C27"
LEVEL = "exploration"
RULE = ("one case = a batch of operations; every operation is written in several ways (arguments by position, by documented name or left out, objects of other equal kinds, bytes or hex, other receivers and equal coin "
        "classes, other ways to reach the method), every outcome is compared with the model's, and values returned are serialised, copied and spoiled; distinct = distinct (operation, way of writing)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements BIP38; it reproduces the published vectors in setup_cmd",
               "parameter names, order and defaults are those of the documentation of the pinned version; kinds of objects are the ones listed in the check"]
RECEIVERS = ("same", "fresh", "copied", "deep-copied", "pickled", "subclass", "subclass with a constructor", "by keywords")
COINS = ("same", "subclass", "own, equal tables", "own, ordered tables", "own, read-only tables", "own, more networks")
REACH = ("method", "bound method kept", "unbound", "partial", "methodcaller", "partial by name")
KINDS = ("fresh", "subclass", "member")
NEED = tuple("receiver:" + r for r in RECEIVERS) + tuple("coin:" + r for r in COINS) + tuple("reached as:" + r for r in REACH) + tuple("arguments:" + k for k in KINDS) + (
    "results compared with the model", "refusals observed", "left to the default", "by position", "by name", "hex in upper case", "hex for bytes", "bytes for hex", "key object for bytes", "results spoiled", "results serialised",
    "intermediate code on the class", "operations below the class", "own address class")
# documented parameters, in order, with the documented defaults
MISSING = object()
SIG = dict(
    intermediate_code=[("passphrase", MISSING), ("lot", None), ("sequence", None), ("owner_salt", None)],
    encrypt=[("wif", MISSING), ("passphrase", MISSING), ("network", None)],
    create_new_encrypted_wif=[("intermediate_passphrase", MISSING), ("wif_type", "wif"), ("seed", None), ("network", None)],
    confirm_code=[("passphrase", MISSING), ("confirmation_code", MISSING), ("network", None), ("detail", False)],
    decrypt=[("encrypted_wif", MISSING), ("passphrase", MISSING), ("network", None), ("detail", False)],
    encode_wif=[("private_key", MISSING), ("wif_prefix", 0x80)],
    decode_wif=[("wif", MISSING), ("wif_prefix", 0x80)],
    private_key_to_wif=[("private_key", MISSING), ("wif_type", "wif-compressed"), ("cryptocurrency", "Bitcoin"), ("network", "mainnet")],
    wif_to_private_key=[("wif", MISSING), ("cryptocurrency", "Bitcoin"), ("network", "mainnet")],
    get_wif_type=[("wif", MISSING), ("cryptocurrency", "Bitcoin"), ("network", "mainnet")],
    get_wif_checksum=[("wif", MISSING), ("cryptocurrency", "Bitcoin"), ("network", "mainnet")],
    check_encode=[("raw", MISSING), ("alphabet", ref.BTC_ALPHABET)], check_decode=[("enc", MISSING), ("alphabet", ref.BTC_ALPHABET)],
    integer_to_bytes=[("data", MISSING), ("bytes_num", None), ("endianness", "big"), ("signed", False)],
    bytes_to_integer=[("data", MISSING), ("endianness", "big"), ("signed", False)],
    bytes_to_string=[("data", MISSING)], get_bytes=[("data", MISSING), ("unhexlify", True)],
    ripemd160=[("data", MISSING)], sha256=[("data", MISSING)], double_sha256=[("data", MISSING)], get_checksum=[("data", MISSING)], hash160=[("data", MISSING)],
)
B58 = {"encode": [("data", MISSING), ("alphabet", ref.BTC_ALPHABET)], "decode": [("data", MISSING), ("alphabet", ref.BTC_ALPHABET)]}
ADDR = {"encode": [("public_key", MISSING)], "decode": [("address", MISSING)]}
ADDR_KW = {"encode": dict(address_prefix=0, public_key_type="compressed", alphabet=ref.BTC_ALPHABET), "decode": dict(address_prefix=0, alphabet=ref.BTC_ALPHABET)}
EITHER = {"owner_salt", "seed", "private_key", "public_key"}           # bytes or hex
HASHES = {"ripemd160", "sha256", "double_sha256", "get_checksum", "hash160"}


class Text(str):
    """a str that carries something of its own"""
    note = "x"


class Raw(bytes):
    note = "x"


class Whole(int):
    note = "x"


def phases(tier):
    q = tier == "quick"
    return [Phase("stub", "stub", 8, n=22 if q else 450, per=30), Phase("real scrypt", "real", 2, n=2 if q else 20, per=4, order=0)]


def cases(phase, rng, shard, nshards, tier, api):
    for _ in range(phase.opts["n"]):
        yield dict(seed=rng.randrange(1 << 40), n=phase.opts["per"])


# ------------------------------------------------------------------ equal objects of other kinds
def other(rng, v, obs):
    """an object equal to v, of v's type"""
    if isinstance(v, bool) or v is None:
        return v
    k = rng.choice(KINDS)
    if isinstance(v, str):
        obs.feature("arguments:" + k)
        if k == "fresh":
            return "".join(list(v)) if len(v) != 1 else (v + "x")[:1]
        if k == "subclass":
            return Text(v)
        try:
            return enum.StrEnum("Words", {"IT": v}).IT
        except (ValueError, TypeError):
            return Text(v)
    if isinstance(v, int):
        obs.feature("arguments:" + k)
        return int(str(v)) if k == "fresh" else Whole(v) if k == "subclass" else enum.IntEnum("Numbers", {"IT": v}).IT
    if isinstance(v, bytes):
        obs.feature("arguments:" + k)
        return bytes(bytearray(v)) if k == "fresh" else Raw(v)
    return v


def coin_class(rng, api, coin, how):
    cls = api.coin(coin)
    I = api.coins.ICryptocurrency
    if how == "same":
        return cls
    if how == "subclass":
        return type("Mine", (cls,), {})
    rest = {k: getattr(cls, k) for k in ("NAME", "ALPHABET") if hasattr(cls, k)}
    nets = {n: dict(v) for n, v in cls.NETWORKS.items()}
    if how == "own, ordered tables":
        nets = OrderedDict(reversed([(n, OrderedDict(v)) for n, v in nets.items()]))
    elif how == "own, read-only tables":
        nets = MappingProxyType({n: MappingProxyType(v) for n, v in nets.items()})
    elif how == "own, more networks":
        nets = dict({"aaa": {"wif_prefix": 7, "address_prefix": 9}}, **nets)
        nets["zzz"] = {"wif_prefix": 200, "address_prefix": 90}
    return type("Mine", (I,), dict(rest, NETWORKS=nets))


def receiver(rng, api, cls, net, how, plain):
    B = api.BIP38
    if how in ("copied", "deep-copied", "pickled"):
        one = B(cls, net)
        if how == "copied":
            return copy.copy(one)
        if how == "deep-copied" or not plain:
            return copy.deepcopy(one)
        return pickle.loads(pickle.dumps(one, rng.choice(range(2, pickle.HIGHEST_PROTOCOL + 1))))
    if how == "subclass":
        return type("Wallet", (B,), {})(cls, net)
    if how == "subclass with a constructor":
        class Wallet(B):
            def __init__(self, label):
                super().__init__(network=net, cryptocurrency=cls)
                self.label = label
        return Wallet("mine")
    if how == "by keywords":
        return B(network=net, cryptocurrency=cls) if net != "mainnet" or rng.random() < 0.5 else B(cryptocurrency=cls)
    return B(cls, net)


def signature(p, api):
    on, name = p.get("on"), p["call"][0]
    if on is api.b58 and name in B58:
        return B58[name]
    if on is api.addr:
        return ADDR[name]
    return SIG[name]


def write(rng, p, api, obs, net):
    """-> (args, kwargs): the same call, written in another way"""
    name, a, k = p["call"]
    sig = signature(p, api)
    values = {n: d for n, d in sig}
    values.update({n: v for (n, _), v in zip(sig, a)})
    values.update(k)
    extra = {n: v for n, v in values.items() if n not in dict(sig)}
    own = None
    if p.get("on") is api.addr and rng.random() < 0.3:              # an address class of the user's, with defaults of its own
        own = {n: extra.pop(n, d) for n, d in ADDR_KW[name].items() if n != "public_key_type"}
        obs.feature("own address class")
    if p.get("on") is api.addr and own is None:
        for n, d in ADDR_KW[name].items():
            if n in extra and extra[n] == d and rng.random() < 0.5:
                del extra[n]
                obs.feature("left to the default")
            elif n not in extra and rng.random() < 0.5:
                extra[n] = d
    if name in ("encrypt", "create_new_encrypted_wif", "confirm_code", "decrypt") and p.get("on") is None and values["network"] in (None, net):
        values["network"] = rng.choice([None, net])
    # bytes or hex
    for n in list(values):
        v = values[n]
        if n in EITHER and v is not None or n == "data" and name in HASHES and v:
            r = rng.random()
            if isinstance(v, bytes) and r < 0.5:
                obs.feature("hex for bytes")
                v = v.hex()
            elif isinstance(v, str) and r < 0.4 and p["refuse"] is None:
                obs.feature("bytes for hex")
                v = bytes.fromhex(v)
            if isinstance(v, str) and rng.random() < 0.3 and v.upper() != v:
                obs.feature("hex in upper case")
                v = v.upper()
            if n == "public_key" and p["refuse"] is None and rng.random() < 0.3:
                obs.feature("key object for bytes")
                v = api.secp.PublicKey.from_bytes(bytes.fromhex(v) if isinstance(v, str) else v)
            values[n] = v
    # positions, names, defaults
    args, kw, positional = [], {}, rng.random() < 0.8
    for n, d in sig:
        v = values[n]
        positional = positional and rng.random() < 0.75
        if d is not MISSING and n != "cryptocurrency" and type(v) is type(d) and v == d and not positional and rng.random() < 0.6 or n == "cryptocurrency" and v is api.coins.Bitcoin and not positional and rng.random() < 0.6:
            obs.feature("left to the default")
            continue
        v = other(rng, v, obs) if rng.random() < 0.6 else v
        if positional:
            args.append(v)
            obs.feature("by position")
        else:
            kw[n] = v
            obs.feature("by name")
    for n, v in extra.items():
        kw[n] = other(rng, v, obs) if rng.random() < 0.6 else v
    if rng.random() < 0.5:
        kw = dict(reversed(list(kw.items())))
    return tuple(args), kw, own


def reach(rng, on, name, args, kw, how, later):
    if how == "unbound" and isinstance(on, type) or how == "unbound" and not hasattr(type(on), name):
        how = "method"
    if how == "method":
        return lambda: getattr(on, name)(*args, **kw)
    if how == "bound method kept":
        f = getattr(on, name)
        later()
        return lambda: f(*args, **kw)
    if how == "unbound":
        raw = getattr(type(on), name)
        if getattr(raw, "__self__", None) is type(on):          # a class method
            return lambda: raw(*args, **kw)
        return lambda: raw(on, *args, **kw)
    if how == "partial":
        i = rng.randrange(len(args) + 1)
        f = functools.partial(getattr(on, name), *args[:i])
        return lambda: f(*args[i:], **kw)
    if how == "partial by name":
        f = functools.partial(getattr(on, name), **kw)
        return lambda: f(*args)
    f = operator.methodcaller(name, *args, **kw)
    return lambda: f(on)


def equal_and_plain(v, want):
    """equal, and made of plain values throughout"""
    if isinstance(want, dict):
        return isinstance(v, dict) and set(v) == set(want) and all(equal_and_plain(v[n], want[n]) for n in want)
    if isinstance(want, (list, tuple)):
        return isinstance(v, (list, tuple)) and len(v) == len(want) and all(map(equal_and_plain, v, want))
    return v == want and isinstance(v, type(want))


def run(c, api, obs):
    rng = random.Random(c["seed"])
    pool = ops.Pool(rng, api)
    pool.pws.append(gen.passphrase(rng)[0])
    pool.salts.append(gen.salt(rng))
    pool.lots.append(gen.lotseq(rng, 0))
    for i in range(c["n"]):
        o = pool.op(api, 0.3 if api.kdf_mode == "stub" else 0.0)
        p = ops.plan(o, api)
        inst = api.instance(o["coin"], o["inst"])
        name, a, k = p["call"]
        on = p.get("on", inst)
        if callable(on) and not hasattr(on, name):
            continue
        if p["refuse"] is None and name == "get_bytes" and not a[0]:
            continue
        how = []
        for j in range(2 if api.kdf_mode == "stub" else 1):
            target = on
            if on is inst:
                p.pop("on", None)
                h, ch = rng.choice(RECEIVERS), rng.choice(COINS)
                if o.get("bad") in ("elsewhere", "network") and ch == "own, more networks":
                    ch = "subclass"
                if o["coin"] == "Ripple":
                    ch = "same"
                obs.feature("receiver:" + h)
                obs.feature("coin:" + ch)
                cls = coin_class(rng, api, o["coin"], ch)
                got = obs.call(receiver, rng, api, cls, o["inst"], h, ch == "same")
                if got[1] is not None:
                    obs.fail("an instance (%s, coin class: %s) could not be made: %r" % (h, ch, got[1]))
                target = inst if h == "same" and ch == "same" else got[0]
                if name == "intermediate_code" and rng.random() < 0.6:
                    target = rng.choice([api.BIP38, type(target)])
                    obs.feature("intermediate code on the class")
                how = [h, ch]
            else:
                obs.feature("operations below the class" if o["op"] == "low" else "on another coin's instance")
            args, kw, own = write(rng, p, api, obs, o["inst"])
            if own is not None:
                target = type("MyAddress", (on,), own)
            r = rng.choice(REACH)
            obs.feature("reached as:" + r)
            later = functools.partial(obs.call, ops.invoke, api.instance(*rng.choice(pool.where)), p)
            call = reach(rng, target, name, args, kw, r, later)
            got = obs.call(call)
            text = "%s%s %s [%s, %s]" % (name, short(repr(args), 300), short(repr(kw), 200), r, ", ".join(how))
            if p["refuse"] is not None:
                obs.refused(text, got, p["refuse"])
                obs.count("refusals observed")
            else:
                value, err = got
                want = p["want"]
                if err is not None:
                    obs.fail("%s: raised %r, the model says %r" % (text, err, want))
                if not equal_and_plain(value, want):
                    obs.fail("%s: %r, the model says %r" % (text, value, want))
                obs.count("results compared with the model")
                after(rng, value, want, call, text, obs, name not in ("get_bytes", "bytes_to_string"))
            obs.nontrivial((name, a, sorted(k.items(), key=str), r, how, len(args), sorted(kw)))


def after(rng, value, want, call, text, obs, own):
    """the value is the caller's: it serialises, and spoiling it spoils nothing else"""
    if own and rng.random() < 0.5:
        try:
            same = pickle.loads(pickle.dumps(value)) == want and copy.deepcopy(value) == want
            if isinstance(want, (dict, str, int)):
                same &= json.loads(json.dumps(value)) == want
        except Exception as e:
            obs.fail("%s: the result does not serialise: %r" % (text, e))
        if not same:
            obs.fail("%s: the result changes when serialised: %r" % (text, value))
        obs.count("results serialised")
    if isinstance(value, dict) and rng.random() < 0.7:
        for n in list(value):
            value[n] = "spoiled"
        value.clear()
        value["x"] = 1
        again, err = obs.call(call)
        if err is not None or not equal_and_plain(again, want):
            obs.fail("%s: after the caller changed the first result, the second was %r" % (text, err or again))
        obs.count("results spoiled")
