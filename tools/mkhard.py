"""Search (with the reference model only) for inputs whose intermediate values start with zero
bytes - the inputs fixed-width handling gets wrong - and write them to data/hard_*.json."""
import json, os, random, sys, time
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import ref

AP = 0


def reason(vals, want):
    for name, v in vals.items():
        for word, at in (("starts", v[:want]), ("ends", v[-want:])):
            if at in (bytes(want), b"\xff" * want) and (want > 1 or word == "starts" and not any(at)):
                return "%s %s with %d bytes %02x" % (name, word, want, at[0])


def nonec_job(args):
    mode, seed, want, budget = args
    kdf = ref.real_kdf if mode == "real" else ref.stub_kdf
    rng = random.Random("nonec%s%d" % (mode, seed))
    out, t = [], time.time()
    k = rng.randrange(1, ref.N)
    comp = seed % 2 == 0
    pw = "Hard%d" % seed
    while time.time() - t < budget:
        k += 1
        priv = k.to_bytes(32, "big")
        addr = ref.address(ref.pubkey(priv, comp), AP)
        dk = kdf(pw.encode(), ref.addr_hash(addr), 16384, 8, 8, 64)
        x1, x2 = ref.xor(priv[:16], dk[:16]), ref.xor(priv[16:], dk[16:32])
        pub = ref.pubkey(priv, False)
        why = reason(dict(x1=x1, x2=x2, x=pub[1:33], y=pub[33:], ah=ref.addr_hash(addr), h160=ref.b58check_decode(addr)[1:]), want)
        if why:
            out.append(dict(priv=priv.hex(), comp=comp, pw=pw, why=why))
            k = rng.randrange(1, ref.N)
    return out


def ec_job(args):
    mode, seed, want, budget = args
    kdf = ref.real_kdf if mode == "real" else ref.stub_kdf
    rng = random.Random("ec%s%d" % (mode, seed))
    out, t = [], time.time()
    lot, seq = (None, None) if seed % 2 else (100000 + seed, seed % 4096)
    comp = seed % 4 < 2
    pw = "Hard%d" % seed
    salt = rng.randbytes(8)
    inter, ii = ref.intermediate(pw, salt, lot, seq, kdf)
    pf = int.from_bytes(ii["pass_factor"], "big")
    entropy = ii["entropy"]
    pp = ii["pass_point"]
    n = 0
    while time.time() - t < budget:
        s = rng.randbytes(24)
        fb = ref.sha256d(s)
        fbi = int.from_bytes(fb, "big")
        priv = (pf * fbi % ref.N).to_bytes(32, "big")
        pub = ref.pubkey(priv, comp)
        ah = ref.addr_hash(ref.address(pub, AP))
        dk = kdf(pp, ah + entropy, 1024, 1, 1, 64)
        k = dk[32:]
        x1 = ref.xor(s[:16], dk[:16])
        e1 = ref.aes_enc(k, x1)
        x2 = ref.xor(e1[8:] + s[16:], dk[16:32])
        pb = ref.pubkey(fb, True)
        y1, y2 = ref.xor(pb[1:17], dk[:16]), ref.xor(pb[17:], dk[16:32])
        vals = dict(x1=x1, x2=x2, y1=y1, y2=y2, priv=priv, factor_b=fb, pubx=pub[1:], pbx=pb[1:], tail=e1[8:], seedtail=s[16:], head=e1, ah=ah, e2=e1[:8])
        n += 1
        why = reason(vals, want)
        if why:
            out.append(dict(pw=pw, salt=salt.hex(), lot=lot, seq=seq, seed=s.hex(), comp=comp, why=why))
    return out


def pf_job(args):
    """intermediate codes whose pass factor starts with zero bytes"""
    mode, seed, want, budget = args
    kdf = ref.real_kdf if mode == "real" else ref.stub_kdf
    rng = random.Random("pf%s%d" % (mode, seed))
    out, t = [], time.time()
    z = b"\0" * want
    salt = rng.randbytes(8)
    pw = "Hard%d" % seed
    pre = kdf(pw.encode(), salt[:4], 16384, 8, 8, 32)
    while time.time() - t < budget:
        lot, seq = rng.randrange(100000, 1000000), rng.randrange(4096)
        ent = salt[:4] + (lot * 4096 + seq).to_bytes(4, "big")
        if ref.sha256d(pre + ent).startswith(z):
            out.append(dict(pw=pw, salt=salt.hex(), lot=lot, seq=seq, why="pass factor starts with %d zero bytes" % want))
            if len(out) >= 3:
                break
    return out


def trim(lst, per):
    seen, out = {}, []
    for h in lst:
        if seen.get(h["why"], 0) < per:
            seen[h["why"]] = seen.get(h["why"], 0) + 1
            out.append(h)
    return out


if __name__ == "__main__":
    ref._gtab()
    which = sys.argv[1]
    budget = float(sys.argv[2])
    with ProcessPoolExecutor(8) as ex:
        def go(job, mode, want, b, jobs=8):
            return [h for part in ex.map(job, [(mode, i, want, b) for i in range(jobs)]) for h in part]
        if which == "stub":
            data = dict(nonec=trim(go(nonec_job, "stub", 2, budget), 4) + trim(go(nonec_job, "stub", 1, 3), 4),
                        ec=trim(go(ec_job, "stub", 2, budget), 4) + trim(go(ec_job, "stub", 1, 5), 4),
                        inter=trim(go(pf_job, "stub", 3, budget), 6) + trim(go(pf_job, "stub", 2, 3), 4))
        else:
            data = dict(nonec=trim(go(nonec_job, "real", 1, budget), 16),
                        ec=trim(go(ec_job, "real", 1, budget, 16), 3) + trim(go(ec_job, "real", 2, budget, 16), 2),
                        inter=trim(go(pf_job, "real", 2, budget / 4), 6) + trim(go(pf_job, "real", 3, budget / 2), 3))
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "hard_%s.json" % which)
    with open(p, "w") as f:
        json.dump(data, f, indent=0)
    for k, v in data.items():
        c = {}
        for h in v:
            c[h["why"]] = c.get(h["why"], 0) + 1
        print(k, len(v), c)
