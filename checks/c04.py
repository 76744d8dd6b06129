"""C04 - generated EC-multiplied keys and confirmation codes are the standard ones."""
from lib import gen, ref, story
from lib.fw import Phase, load_data

PROP = "C04"
LEVEL = "exploration"
RULE = ("one case = one (intermediate code made by the independent model, 24-byte seed, WIF type, coin network); all six reported fields are "
        "compared with the model's; distinct = distinct (network prefixes, intermediate code, seed, WIF type)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements BIP38; it reproduces the published vectors in setup_cmd",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)"]
NEED = ("results compared with the model", "x1 starts with 00", "x2 starts with 00", "y1 starts with 00", "y2 starts with 00",
        "lot/sequence", "no lot/sequence")


def phases(tier):
    q = tier == "quick"
    # creation uses only the cheap second KDF: run the bulk of it with real scrypt
    return [Phase("real-scrypt", "real", 8, n=400 if q else 8000, order=1),
            Phase("stub", "stub", 8, n=1500 if q else 8000),
            Phase("stub, no native RIPEMD-160", "stub", 2, native_ripemd=False, n=80 if q else 1000)]


def cases(phase, rng, shard, nshards, tier, api):
    rate = 0.12
    return story.with_twins(rng, api, plain_cases(phase, rng, shard, nshards, tier, api), rate)


def plain_cases(phase, rng, shard, nshards, tier, api):
    hard = load_data("hard_real.json" if phase.kdf == "real" else "hard_stub.json")["ec"]
    for i, h in enumerate(hard):
        if i % nshards == shard and phase.native_ripemd and (phase.kdf == "stub" or tier == "thorough" or i % 2 == 0):
            yield dict(coin="Bitcoin", net="mainnet", inst="mainnet", arg=None, kind="ascii", fresh=False, pw=h["pw"],
                       salt={"hex": h["salt"]}, lot=h["lot"], seq=h["seq"], seed={"hex": h["seed"]}, comp=h["comp"])
    inter = None
    for i in range(phase.opts["n"]):
        c = story.ec_case(rng, api)
        if phase.kdf == "real":
            # an owner's code costs a full scrypt; any curve point is a valid pass point, so most
            # cases use codes built directly from a random point
            c["point"] = gen.key(rng).hex()
            c["entropy"] = (gen.salt(rng, 4) + (c["lot"] * 4096 + c["seq"]).to_bytes(4, "big") if c["lot"] is not None else gen.salt(rng, 8)).hex()
        yield c


def inter_of(c, api):
    if "point" in c:
        magic = ref.MAGIC_NOLOT if c["lot"] is None else ref.MAGIC_LOT
        return ref.b58check(magic + bytes.fromhex(c["entropy"]) + ref.pubkey(bytes.fromhex(c["point"]), True))
    return story.inter_model(c, api)[0]


@story.paired
def run(c, api, obs):
    story.situation(c, obs, api)
    inter = inter_of(c, api)
    made, info = story.create_model(c, api, inter)
    story.shape_features(obs, x1=info["x1"], x2=info["x2"], y1=info["y1"], y2=info["y2"], seed=gen.raw(c["seed"]))
    obs.feature("seed as " + list(c["seed"])[0])
    inst = story.instance(c, api)
    got = obs.call(inst.create_new_encrypted_wif, intermediate_passphrase=inter,
                   wif_type="wif-compressed" if c["comp"] else "wif", seed=gen.unform(c["seed"]), **story.kw(c))
    obs.equal("create_new_encrypted_wif", got, made)
    obs.nontrivial((api.prefixes(c["coin"], c["net"]), inter, gen.raw(c["seed"]), c["comp"]))
