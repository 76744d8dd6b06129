"""C01 - encrypting a WIF gives exactly the standard BIP38 string."""
from lib import gen, ref, story
from lib.fw import Phase, load_data

PROP = "C01"
LEVEL = "exploration"
RULE = ("one case = one (coin network, private key, compression, passphrase) encrypted through the public API and compared byte for "
        "byte with an independent model of BIP38; distinct = distinct (network prefixes, key, compression, NFC passphrase)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements BIP38; it reproduces the published vectors in setup_cmd",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)"]
NEED = ("results compared with the model", "x1 starts with 00", "x2 starts with 00")


def phases(tier):
    q = tier == "quick"
    return [Phase("real-scrypt", "real", 8, n=2 if q else 40, hard=True),
            Phase("stub", "stub", 8, n=4000 if q else 60000),
            Phase("stub, no native RIPEMD-160", "stub", 2, native_ripemd=False, n=400 if q else 6000)]


def cases(phase, rng, shard, nshards, tier, api):
    rate = 0.12 if phase.kdf == "stub" else 0
    return story.with_twins(rng, api, plain_cases(phase, rng, shard, nshards, tier, api), rate)


def plain_cases(phase, rng, shard, nshards, tier, api):
    hard = load_data("hard_real.json" if phase.kdf == "real" else "hard_stub.json")["nonec"]
    if phase.native_ripemd:
        for i, h in enumerate(hard):
            if i % nshards == shard and (tier == "thorough" or phase.kdf == "stub" or i < 16):
                yield dict(coin="Bitcoin", net="mainnet", inst="mainnet", arg=None, kind="ascii", fresh=False,
                           priv=h["priv"], comp=h["comp"], pw=h["pw"])
    for _ in range(phase.opts["n"]):
        yield story.nonec_case(rng, api)


@story.paired
def run(c, api, obs):
    story.situation(c, obs, api)
    enc, detail, info = story.nonec_model(c, api)
    story.shape_features(obs, key=bytes.fromhex(c["priv"]), x1=info["x1"], x2=info["x2"])
    inst = story.instance(c, api)
    got = obs.call(inst.encrypt, wif=detail["wif"], passphrase=c["pw"], **story.kw(c))
    obs.equal("encrypt(%s)" % detail["wif_type"], got, enc)
    if not api.phase.kdf == "real" and obs.counts["calls"] % 9 == 0:
        obs.equal("encrypt again", obs.call(inst.encrypt, detail["wif"], c["pw"], **story.kw(c)), enc)
        obs.count("repeated calls compared")
    obs.nontrivial((api.prefixes(c["coin"], c["net"]), c["priv"], c["comp"], gen.canon(c["pw"])))
