"""C06 - a confirmation code confirms exactly the address its generator reported."""
from lib import gen, ref, story
from lib.fw import Phase, load_data

PROP = "C06"
LEVEL = "exploration"
RULE = ("one case = one history intermediate code -> generated key -> confirmation with the owner's passphrase (same and foreign network) and with a "
        "near-miss passphrase; distinct = distinct (network prefixes, passphrase, salt, lot, sequence, seed, WIF type)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements BIP38; it reproduces the published vectors in setup_cmd",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)"]
NEED = ("confirmed", "refusals observed", "y1 starts with 00", "y2 starts with 00", "lot/sequence", "no lot/sequence")


def phases(tier):
    q = tier == "quick"
    return [Phase("real-scrypt", "real", 8, n=1 if q else 20),
            Phase("stub", "stub", 8, n=1100 if q else 10000)]


def cases(phase, rng, shard, nshards, tier, api):
    rate = 0.12 if phase.kdf == "stub" else 0
    return story.with_twins(rng, api, plain_cases(phase, rng, shard, nshards, tier, api), rate)


def plain_cases(phase, rng, shard, nshards, tier, api):
    hard = load_data("hard_real.json" if phase.kdf == "real" else "hard_stub.json")["ec"]
    if phase.kdf == "real":
        for i, v in enumerate(ref.BIP_CFRM):
            if i % nshards == shard:
                yield dict(vector=list(v))
        hard = [h for h in hard if h["why"][:2] in ("y1", "y2", "pb")] + [h for h in hard if h["why"][:2] not in ("y1", "y2", "pb")]
    for i, h in enumerate(hard):
        if i % nshards == shard and (phase.kdf == "stub" or tier == "thorough" or i < 24):
            yield dict(coin="Bitcoin", net="mainnet", inst="mainnet", arg=None, kind="ascii", fresh=False, pw=h["pw"],
                       salt={"hex": h["salt"]}, lot=h["lot"], seq=h["seq"], seed={"hex": h["seed"]}, comp=h["comp"],
                       own=False, plain=False, wrong=None, other=None)
    for i in range(phase.opts["n"]):
        c = story.ec_case(rng, api, own=rng.random() < 0.3, plain=rng.random() < 0.2, wrong=None, other=None)
        if phase.kdf == "stub":
            r = rng.random()
            if r < 0.3:
                c["wrong"] = list(rng.choice(gen.near_misses(rng, c["pw"])))
            elif r < 0.45 and not isinstance(c["coin"], dict):
                c["other"] = list(rng.choice(api.pairs))
        yield c


@story.paired
def run(c, api, obs):
    if "vector" in c:
        code, pw, addr, lot = c["vector"]
        got, e = obs.call(api.instance("Bitcoin", "mainnet").confirm_code, pw, code, detail=True)
        obs.equal("confirm_code(published vector)", ((got or {}).get("address"), e), addr)
        obs.equal("confirm_code(published vector)", (got["lot"], None), lot)
        obs.nontrivial(code)
        return
    story.situation(c, obs, api)
    inst = story.instance(c, api)
    inter, ii = story.inter_model(c, api)
    made, info = story.create_model(c, api, inter)
    story.shape_features(obs, y1=info["y1"], y2=info["y2"], point_b=info["point_b"][1:])
    if c["own"]:
        made, e = obs.call(inst.create_new_encrypted_wif, inter, "wif-compressed" if c["comp"] else "wif", gen.unform(c["seed"]), **story.kw(c))
        if e is not None:
            obs.fail("create_new_encrypted_wif refused a valid code and seed: %r" % (e,))
        obs.feature("made by the code itself")
    code = made["confirmation_code"]
    want = story.confirm_detail(c, made)
    obs.equal("confirm_code(detail=True)", obs.call(inst.confirm_code, passphrase=c["pw"], confirmation_code=code, detail=True, **story.kw(c)), want)
    obs.count("confirmed")
    if c["plain"]:
        obs.equal("confirm_code()", obs.call(inst.confirm_code, c["pw"], code, **story.kw(c)), want["address"])
    if c["wrong"]:
        obs.feature("wrong passphrase: " + c["wrong"][0])
        obs.refused("confirm_code with another passphrase (%s)" % c["wrong"][0],
                    obs.call(inst.confirm_code, c["wrong"][1], code, **story.kw(c)), api.exc.PassphraseError)
    if c["other"]:
        coin, net = c["other"]
        if api.golden[coin][net][1] != api.prefixes(c["coin"], c["net"])[1] and coin != "Ripple" and c["coin"] != "Ripple":
            obs.feature("confirmed on a network with another address prefix")
            obs.refused("confirm_code on %s %s" % (coin, net),
                        obs.call(api.instance(coin, net).confirm_code, c["pw"], code), api.exc.PassphraseError)
    obs.nontrivial((api.prefixes(c["coin"], c["net"]), gen.canon(c["pw"]), ii["entropy"], c["lot"], c["seq"], gen.raw(c["seed"]), c["comp"]))
