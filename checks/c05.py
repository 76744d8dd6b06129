"""C05 - the owner's passphrase opens every EC-multiplied key made for them."""
from lib import gen, ref, story
from lib.fw import Phase, load_data

PROP = "C05"
LEVEL = "exploration"
RULE = ("one case = one history intermediate code -> generated key -> decryption with the owner's passphrase; either all steps by the code under "
        "test or the first two by the independent model; the recovered key has to control the reported public key and address, and seed, lot and "
        "sequence have to come back; distinct = distinct (network prefixes, passphrase, salt, lot, sequence, seed, WIF type)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements BIP38; it reproduces the published vectors in setup_cmd",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)"]
NEED = ("keys recovered", "made by the code itself", "made by the model", "x1 starts with 00", "x2 starts with 00",
        "lot/sequence", "no lot/sequence", "key starts with 00", "seed starts with 00")


def phases(tier):
    q = tier == "quick"
    return [Phase("real-scrypt", "real", 8, n=2 if q else 30),
            Phase("stub", "stub", 8, n=1300 if q else 12000),
            Phase("stub, no native RIPEMD-160", "stub", 2, native_ripemd=False, n=60 if q else 1000)]


def cases(phase, rng, shard, nshards, tier, api):
    rate = 0.12 if phase.kdf == "stub" else 0
    return story.with_twins(rng, api, plain_cases(phase, rng, shard, nshards, tier, api), rate)


def plain_cases(phase, rng, shard, nshards, tier, api):
    hard = load_data("hard_real.json" if phase.kdf == "real" else "hard_stub.json")["ec"]
    if phase.kdf == "real":
        for i, v in enumerate(v for v in ref.BIP_VECTORS if v[3] is None):
            if i % nshards == shard:
                yield dict(vector=list(v))
    if phase.native_ripemd:
        for i, h in enumerate(hard):
            if i % nshards == shard and (phase.kdf == "stub" or tier == "thorough" or (i // nshards) % 2 == 0):
                yield dict(coin="Bitcoin", net="mainnet", inst="mainnet", arg=None, kind="ascii", fresh=False, pw=h["pw"],
                           salt={"hex": h["salt"]}, lot=h["lot"], seq=h["seq"], seed={"hex": h["seed"]}, comp=h["comp"],
                           own=False, plain=phase.kdf == "stub" and rng.random() < 0.3)
    for i in range(phase.opts["n"]):
        yield story.ec_case(rng, api, own=rng.random() < 0.4, plain=rng.random() < 0.2)


@story.paired
def run(c, api, obs):
    if "vector" in c:
        obs.equal("decrypt(published vector)", obs.call(api.instance("Bitcoin", "mainnet").decrypt, c["vector"][0], c["vector"][1]), c["vector"][2])
        obs.nontrivial(c["vector"][0])
        return
    story.situation(c, obs, api)
    inst = story.instance(c, api)
    inter, ii = story.inter_model(c, api)
    if c["own"]:
        args = dict(passphrase=c["pw"], owner_salt=gen.unform(c["salt"]))
        if c["lot"] is not None:
            args.update(lot=c["lot"], sequence=c["seq"])
        code, e = obs.call(api.BIP38.intermediate_code, **args)
        if e is not None:
            obs.fail("intermediate_code refused valid arguments: %r" % (e,))
        made, e = obs.call(inst.create_new_encrypted_wif, code, "wif-compressed" if c["comp"] else "wif", gen.unform(c["seed"]), **story.kw(c))
        if e is not None:
            obs.fail("create_new_encrypted_wif refused a valid code and seed: %r" % (e,))
        _, info = story.create_model(c, api, inter)
        obs.feature("made by the code itself")
    else:
        made, info = story.create_model(c, api, inter)
        obs.feature("made by the model")
    got, e = obs.call(inst.decrypt, encrypted_wif=made["encrypted_wif"], passphrase=c["pw"], detail=True, **story.kw(c))
    if e is not None:
        obs.fail("the owner's passphrase does not open the key: %s: %s" % (type(e).__name__, e))
    want = story.ec_detail(c, api, ii, made, info)
    story.shape_features(obs, key=bytes.fromhex(want["private_key"]), x1=info["x1"], x2=info["x2"], seed=gen.raw(c["seed"]))
    obs.count("keys recovered")
    # judged from the key itself
    pub = ref.pubkey(bytes.fromhex(got["private_key"]), c["comp"]).hex()
    if pub != made["public_key"] or got["address"] != made["address"]:
        obs.fail("recovered key %s does not control the address %s reported at creation" % (got["private_key"], made["address"]))
    obs.equal("decrypt(detail=True)", (got, None), want)
    if c["plain"]:
        obs.equal("decrypt()", obs.call(inst.decrypt, made["encrypted_wif"], c["pw"], **story.kw(c)), want["wif"])
    obs.nontrivial((api.prefixes(c["coin"], c["net"]), gen.canon(c["pw"]), ii["entropy"], c["lot"], c["seq"], gen.raw(c["seed"]), c["comp"]))
