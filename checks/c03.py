"""C03 - intermediate codes are the standard ones for passphrase, salt, lot and sequence."""
from lib import gen, ref, story
from lib.fw import Phase, load_data

PROP = "C03"
LEVEL = "exploration"
RULE = ("one case = one (passphrase, owner salt in one of its accepted forms, lot/sequence or none); the returned code is compared with "
        "the independent model's and, decoded, with the salt, lot and sequence asked for; distinct = distinct (NFC passphrase, salt used, lot, sequence)")
ASSUMPTIONS = ["the reference model (lib/ref.py, stdlib only) implements BIP38; it reproduces the published vectors in setup_cmd",
               "stand-in KDF phases assume the code derives keys through scrypt.hash or hashlib.scrypt (checked by a canary, else real scrypt is used)"]
NEED = ("results compared with the model", "lot/sequence", "no lot/sequence", "sequence 0", "sequence 4095", "lot boundary", "pass factor starts with 00")


def phases(tier):
    q = tier == "quick"
    return [Phase("real-scrypt", "real", 8, n=6 if q else 120),
            Phase("stub", "stub", 8, n=3500 if q else 70000),
            Phase("stub, every sequence number", "stub", 8, n=0, sweep=True)]


def cases(phase, rng, shard, nshards, tier, api):
    rate = 0.12 if phase.kdf == "stub" and not phase.opts.get("sweep") else 0
    return story.with_twins(rng, api, plain_cases(phase, rng, shard, nshards, tier, api), rate)


def plain_cases(phase, rng, shard, nshards, tier, api):
    if phase.opts.get("sweep"):
        # all 4096 sequences and a stride of lots, cheap: one passphrase and salt per shard
        pw, salt = "sweep%d" % shard, gen.salt(rng).hex()
        lots = list(range(100000, 1000000, 9001 if tier == "quick" else 900))
        for i in range(shard, 4096, nshards):
            if tier == "quick" and i % 3 and i not in gen.SEQS:
                continue
            yield dict(pw=pw, kind="ascii", salt={"hex": salt}, lot=lots[i % len(lots)], seq=i, how="inst")
        for i, lot in enumerate(lots):
            if i % nshards == shard:
                yield dict(pw=pw, kind="ascii", salt={"bytes": salt}, lot=lot, seq=rng.choice(gen.SEQS), how="class")
        return
    hard = load_data("hard_real.json" if phase.kdf == "real" else "hard_stub.json")["inter"]
    for i, h in enumerate(hard):
        if i % nshards == shard:
            yield dict(pw=h["pw"], kind="ascii", salt={"hex": h["salt"]}, lot=h["lot"], seq=h["seq"], how="class")
    for _ in range(phase.opts["n"]):
        lot, seq = gen.lotseq(rng)
        n = 8 if lot is None else rng.choice([4, 8])
        pw, kind = gen.passphrase(rng)
        yield dict(pw=pw, kind=kind, lot=lot, seq=seq, salt=gen.data_form(rng, gen.salt(rng, n)), how=rng.choice(["class", "inst"]))


@story.paired
def run(c, api, obs):
    obs.feature("passphrase:" + c["kind"], "lot/sequence" if c["lot"] is not None else "no lot/sequence", "salt as " + list(c["salt"])[0],
                "%d-byte salt" % len(gen.raw(c["salt"])))
    if c["seq"] in (0, 4095):
        obs.feature("sequence %d" % c["seq"])
    if c["lot"] in (100000, 999999):
        obs.feature("lot boundary")
    want, info = story.inter_model(c, api)
    story.shape_features(obs, **{"pass factor": info["pass_factor"]})
    f = (api.BIP38 if c["how"] == "class" else api.instance("Bitcoin", "mainnet")).intermediate_code
    args = dict(passphrase=c["pw"], owner_salt=gen.unform(c["salt"]))
    if c["lot"] is not None:
        args.update(lot=c["lot"], sequence=c["seq"])
    got = obs.call(f, **args)
    obs.equal("intermediate_code(lot=%r, sequence=%r)" % (c["lot"], c["seq"]), got, want)
    obs.nontrivial((gen.canon(c["pw"]), info["entropy"], c["lot"], c["seq"]))
