"""C02 - decrypting a standard (non-EC) encrypted key returns the original key."""
from lib import gen, ref, story
from lib.fw import Phase, load_data

PROP = "C02"
LEVEL = "exploration"
RULE = ("one case = one standard BIP38 string, made by the independent model (and, for half the cases, by the code itself), opened with "
        "its passphrase in plain and detailed form and compared with the original key; distinct = distinct (network prefixes, key, compression, NFC passphrase)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements BIP38; it reproduces the published vectors in setup_cmd",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)"]
NEED = ("results compared with the model", "x1 starts with 00", "x2 starts with 00", "key starts with 00")


def phases(tier):
    q = tier == "quick"
    return [Phase("real-scrypt", "real", 8, n=2 if q else 40),
            Phase("stub", "stub", 8, n=2200 if q else 40000),
            Phase("stub, no native RIPEMD-160", "stub", 2, native_ripemd=False, n=250 if q else 4000)]


def cases(phase, rng, shard, nshards, tier, api):
    rate = 0.12 if phase.kdf == "stub" else 0
    return story.with_twins(rng, api, plain_cases(phase, rng, shard, nshards, tier, api), rate)


def plain_cases(phase, rng, shard, nshards, tier, api):
    hard = load_data("hard_real.json" if phase.kdf == "real" else "hard_stub.json")["nonec"]
    if phase.native_ripemd:
        if phase.kdf == "real":
            for i, v in enumerate(v for v in ref.BIP_VECTORS if v[3] is not None):
                if i % nshards == shard:
                    yield dict(vector=list(v))
        for i, h in enumerate(hard):
            if i % nshards == shard and (tier == "thorough" or phase.kdf == "stub" or i < 16):
                yield dict(coin="Bitcoin", net="mainnet", inst="mainnet", arg=None, kind="ascii", fresh=False,
                           priv=h["priv"], comp=h["comp"], pw=h["pw"], both=phase.kdf == "stub")
    for _ in range(phase.opts["n"]):
        yield story.nonec_case(rng, api, both=phase.kdf == "stub", own=rng.random() < 0.3)


@story.paired
def run(c, api, obs):
    if "vector" in c:
        enc, pw, wif, comp = c["vector"]
        obs.equal("decrypt(published vector)", obs.call(api.instance("Bitcoin", "mainnet").decrypt, enc, pw), wif)
        obs.nontrivial(enc)
        return
    story.situation(c, obs, api)
    enc, detail, info = story.nonec_model(c, api)
    story.shape_features(obs, key=bytes.fromhex(c["priv"]), x1=info["x1"], x2=info["x2"])
    inst = story.instance(c, api)
    if c.get("own"):
        enc2, e = obs.call(inst.encrypt, detail["wif"], c["pw"], **story.kw(c))
        if e is None:                              # what encrypt returns is C01's business; opening it is ours
            enc = enc2
            obs.feature("string made by the code itself")
    obs.equal("decrypt(detail=True)", obs.call(inst.decrypt, encrypted_wif=enc, passphrase=c["pw"], detail=True, **story.kw(c)), detail)
    if c["both"]:
        obs.equal("decrypt()", obs.call(inst.decrypt, enc, c["pw"], **story.kw(c)), detail["wif"])
    obs.nontrivial((api.prefixes(c["coin"], c["net"]), c["priv"], c["comp"], gen.canon(c["pw"])))
