"""C15 - keys and points follow secp256k1 and nothing off the curve is accepted."""
from lib import gen, ref
from lib.fw import Phase

PROP = "C15"
LEVEL = "exploration"
RULE = ("one case = one scalar or pair of points (encodings, addition, multiplication in both operand orders compared with independent curve arithmetic) or one byte "
        "string / coordinate pair offered as key or point (accepted only if the model parses it, and then as the same point); distinct = distinct operands")
ASSUMPTIONS = ["lib/ref.py's secp256k1 arithmetic is right (self-tested in setup_cmd against published points and group identities)"]
NEED = ("results compared with the model", "refusals observed", "doubling", "inverse", "identity", "coordinate that fits with p added", "scalar above n", "negative scalar", "x starts with 00", "y starts with 00", "chain of 5")
N, P = ref.N, ref.P


def phases(tier):
    q = tier == "quick"
    return [Phase("group", "stub", 8, n=800 if q else 9000),
            Phase("encodings", "stub", 8, n=900 if q else 18000, enc=True)]


# scalars whose point has x or y starting with a zero byte (found by search, checked at run time)
def scalar(rng):
    v = gen.number(rng, None, 1, None, 0.005, 0.1)
    if v is not None:
        return v
    r = rng.random()
    if r < 0.15:
        return rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 255, 256, 257])
    if r < 0.3:
        return N - rng.choice([1, 2, 3, 4, 5, 16, 256, 257])
    if r < 0.35:
        return (N + rng.choice([-1, 1, 3])) // 2
    if r < 0.45:
        return 1 << rng.randrange(256) if rng.random() < 0.5 else (1 << rng.randrange(1, 256)) - 1
    return int.from_bytes(gen.key(rng), "big")


def cases(phase, rng, shard, nshards, tier, api):
    if phase.opts.get("enc"):
        for _ in range(phase.opts["n"]):
            k = scalar(rng) % N or 1
            pt = ref.ec_mul(k)
            if rng.random() < 0.1:                      # a zero-led x coordinate, by search
                k = rng.randrange(1, N - 2 ** 32)
                pt = ref.ec_mul(k)
                which = rng.randrange(2)
                while pt[which] >> 248:
                    pt = ref.ec_add(pt, ref.G)
                    k += 1
            yield dict(enc="%x" % k, salt=rng.randrange(1 << 30))
        return
    for _ in range(phase.opts["n"]):
        a, b = scalar(rng), scalar(rng)
        r = rng.random()
        if r < 0.12:
            b = a
        elif r < 0.24:
            b = N - a
        k = scalar(rng) if rng.random() < 0.8 else rng.choice([N + 1, N + 2, 2 * N + 3, 2 ** 256 - 1, 2 ** 256, N * N + 5, 3 * N - 1, 2 ** 300 + 7])
        if rng.random() < 0.06:
            k = -rng.choice([k, 1, 2, 3, N - 1, N + 1, 2 ** 255, 1 + rng.randrange(1 << 16)])
        yield dict(a="%x" % (a % N or 1), b="%x" % (b % N or 1), k="%x" % k, how=rng.choice(["coords", "key", "bytes", "gen"]))


def point(api, obs, k, how, pt):
    S = api.secp
    if how == "key":
        p, e = obs.call(lambda: S.PrivateKey.from_bytes((k % N).to_bytes(32, "big")).public_key().point())
    elif how == "bytes":
        p, e = obs.call(S.Point.from_bytes, ref.ser_pub(pt, k % 2 == 0))
    elif how == "gen":
        p, e = obs.call(lambda: S.Secp256k1.GENERATOR * k)
    else:
        p, e = obs.call(S.Point.from_coordinates, pt[0], pt[1])
    if e is not None:
        obs.fail("valid point refused (%s): %r" % (how, e))
    return p


def check_point(obs, what, p, pt, e=None):
    if e is not None:
        obs.fail("%s raised %r" % (what, e))
    obs.equal(what + " x, y", ((p.x(), p.y()), None), pt)
    obs.equal(what + " raw_encoded", obs.call(p.raw_encoded), ref.ser_pub(pt, True))


def run(c, api, obs):
    S = api.secp
    if "enc" in c:
        return encodings(c, api, obs)
    a, b, k = int(c["a"], 16), int(c["b"], 16), int(c["k"], 16)
    A, B = ref.ec_mul(a), ref.ec_mul(b)
    p, q = point(api, obs, a, c["how"], A), point(api, obs, b, "coords", B)
    if pt_zero(A):
        obs.feature(*pt_zero(A))
    want = ref.ec_add(A, B)
    if A == B:
        obs.feature("doubling")
    if want is None:
        obs.feature("inverse")
        s, e = obs.call(lambda: p + q)
        if e is None:
            identity(S, obs, "P + (-P)", s, q, B)
    else:
        check_point(obs, "P + Q", *_swap(obs.call(lambda: p + q), want))
        check_point(obs, "Q + P", *_swap(obs.call(lambda: q + p), want))
    want = ref.ec_mul(k % N, A)
    if k >= N:
        obs.feature("scalar above n")
    if k < 0:
        obs.feature("negative scalar")
    if want is None:
        return
    check_point(obs, "P * k", *_swap(obs.call(lambda: p * k), want))
    check_point(obs, "k * P", *_swap(obs.call(lambda: k * p), want))
    r, e = obs.call(lambda: S.PublicKey.from_point(p * k))
    if e is not None:
        obs.fail("PublicKey.from_point refused a valid point: %r" % (e,))
    obs.equal("PublicKey.from_point(P * k)", obs.call(r.raw_uncompressed), ref.ser_pub(want, False))
    # results feed further operations, without being read in between
    ops, acc, model = [], p, A
    for i in range(2 + (a + b) % 4):
        what = (k >> (3 * i)) % 6
        if what < 2:
            nxt = ref.ec_add(model, B)
            step = (lambda v: v + q) if what else (lambda v: q + v)
        elif what == 2:
            nxt = ref.ec_add(model, model)
            step = lambda v: v + v
        elif what == 3:
            nxt = ref.ec_add(model, A)
            step = lambda v: v.__radd__(p)
        else:
            m = 2 + (k >> i) % (1 << (8 * what))
            nxt = ref.ec_mul(m % N, model)
            step = (lambda v, m=m: v * m) if what == 4 else (lambda v, m=m: m * v)
        if nxt is None:
            break
        ops.append(what)
        acc, e = obs.call(step, acc)
        if e is not None:
            obs.fail("a chain of operations %s raised %r" % (ops, e))
        model = nxt
    check_point(obs, "a chain of operations %s" % ops, acc, model)
    obs.equal("raw_decoded of a chain", obs.call(acc.raw_decoded), ref.ser_pub(model, False)[1:])
    obs.feature("chain of %d" % len(ops))
    # distributivity keeps operands intact: p itself must not have moved
    check_point(obs, "P after use", p, A)
    if a % 5 == 0:
        obs.feature("identity")
        z, e = obs.call(lambda: p * N)
        if e is None:
            identity(S, obs, "P * n", z, q, B)
    obs.nontrivial((a, b, k))


def identity(S, obs, what, z, q, B):
    raw, e = obs.call(z.raw_encoded)
    if e is None and isinstance(raw, bytes) and ref.parse_pub(raw) is not None:
        obs.fail("%s encodes as the curve point %s" % (what, raw.hex()))
    pk, e = obs.call(S.PublicKey.from_point, z)
    if e is None:
        obs.fail("PublicKey.from_point(%s) returned %r" % (what, pk))
    check_point(obs, "(%s) + Q" % what, *_swap(obs.call(lambda: z + q), B))
    check_point(obs, "Q + (%s)" % what, *_swap(obs.call(lambda: q + z), B))


def _swap(got, want):
    v, e = got
    return v, want, e


EDGE = {}


def edge():
    """points with a coordinate so small that it fits in 32 bytes with P added"""
    if not EDGE:
        xs = [ref.lift_x(v, par) for v in range(1, 40) for par in (0, 1)]
        EDGE["x"] = [p for p in xs if p is not None]
        ys = []
        for v in range(1, 200):
            a = (v * v - 7) % P
            r = pow(a, (P + 2) // 9, P)                 # P = 7 mod 9
            if pow(r, 3, P) == a:
                ys.append((r, v))
        EDGE["y"] = ys
    return EDGE


def edge_points(rng, api, obs):
    S = api.secp
    which = rng.choice("xy")
    x, y = rng.choice(edge()[which])
    obs.feature("coordinate that fits with p added")
    v, e = obs.call(S.Point.from_coordinates, x, y)
    check_point(obs, "Point.from_coordinates(%x, %x)" % (x, y), v, (x, y), e)
    obs.equal("raw_uncompressed", obs.call(lambda: S.PublicKey.from_point(v).raw_uncompressed()), ref.ser_pub((x, y), False))
    u, w = (x + P, y) if which == "x" else (x, y + P)
    obs.refused("Point.from_coordinates(%x, %x)" % (u, w), obs.call(S.Point.from_coordinates, u, w), api.REFUSED)
    raw = u.to_bytes(32, "big") + w.to_bytes(32, "big")
    for b in [raw, b"\4" + raw] + ([bytes([2 + (w & 1)]) + raw[:32]] if which == "x" else []):
        obs.refused("Point.from_bytes(%s)" % b.hex(), obs.call(S.Point.from_bytes, b), api.REFUSED)
        obs.refused("PublicKey.from_bytes(%s)" % b.hex(), obs.call(S.PublicKey.from_bytes, b), api.REFUSED)


def pt_zero(pt):
    return [n + " starts with 00" for n, v in zip("xy", pt) if v >> 248 == 0]


def encodings(c, api, obs):
    import random
    rng = random.Random(c["salt"])
    S = api.secp
    k = int(c["enc"], 16)
    kb = k.to_bytes(32, "big")
    pt = ref.ec_mul(k)
    obs.feature(*pt_zero(pt))
    cb, ub = ref.ser_pub(pt, True), ref.ser_pub(pt, False)
    sk, e = obs.call(S.PrivateKey.from_bytes, kb)
    if e is not None:
        obs.fail("private key %s refused: %r" % (c["enc"], e))
    obs.equal("PrivateKey.raw", obs.call(sk.raw), kb)
    pk, e = obs.call(sk.public_key)
    keys = [("of the private key", pk)]
    for name, b in (("compressed", cb), ("uncompressed", ub)):
        v, e = obs.call(S.PublicKey.from_bytes, b)
        if e is not None:
            obs.fail("%s public key %s refused: %r" % (name, b.hex(), e))
        keys.append(("from " + name, v))
        v, e = obs.call(S.Point.from_bytes, b)
        if e is not None:
            obs.fail("%s point %s refused: %r" % (name, b.hex(), e))
        check_point(obs, "Point.from_bytes(%s)" % name, v, pt)
        obs.equal("Point.raw", obs.call(v.raw), ub[1:])
        obs.equal("Point.raw_decoded", obs.call(v.raw_decoded), ub[1:])
        v, e = obs.call(S.PublicKey.from_point, v)
        if e is not None:
            obs.fail("PublicKey.from_point refused: %r" % (e,))
        keys.append(("from point of " + name, v))
    v, e = obs.call(S.Point.from_bytes, ub[1:])
    if e is not None:
        obs.fail("64-byte point refused: %r" % (e,))
    check_point(obs, "Point.from_bytes(64 bytes)", v, pt)
    for name, v in keys:
        obs.equal("raw_compressed " + name, obs.call(v.raw_compressed), cb)
        obs.equal("raw_uncompressed " + name, obs.call(v.raw_uncompressed), ub)
        obs.equal("raw(compressed) " + name, obs.call(v.raw, "compressed"), cb)
        obs.equal("raw(uncompressed) " + name, obs.call(v.raw, "uncompressed"), ub)
        check_point(obs, "point() " + name, v.point(), pt)
    for name, f, want in (("PrivateKey.length", S.PrivateKey.length, 32), ("PublicKey.compressed_length", S.PublicKey.compressed_length, 33), ("PublicKey.uncompressed_length", S.PublicKey.uncompressed_length, 65)):
        obs.equal(name, obs.call(f), want)
    # what must not be accepted
    x, y = pt
    badx = x
    while ref.lift_x(badx, 0) is not None:
        badx = (badx + 1) % P
    xb, yb = cb[1:], ub[33:]
    bad = [cb[:-1], cb + b"\0", b"\0" + cb, cb[1:], ub[:-1], ub + b"\0", b"\2" + badx.to_bytes(32, "big"), b"\3" + badx.to_bytes(32, "big"),
           bytes([rng.choice([0, 1, 4, 5, 6, 7, 8, 0x82, 0xFF])]) + xb, bytes([rng.choice([0, 1, 2, 3, 5, 8, 0x84])]) + ub[1:],
           b"\4" + xb + ((y + 1) % P).to_bytes(32, "big"), b"\4" + yb + xb, b"\4" + badx.to_bytes(32, "big") + yb,
           b"\4" + xb + bytes(32), b"\4" + bytes(64), b"\4" + b"\xff" * 64, b"\2" + b"\xff" * 32, b"\2" + bytes(32), b"\0", b"", b"\2" + P.to_bytes(32, "big"),
           bytes([6 + (1 - (y & 1))]) + ub[1:], ub[:1] + ub[1:33] + bytes([ub[33] ^ (1 << rng.randrange(8))]) + ub[34:],
           rng.randbytes(rng.choice([1, 31, 32, 34, 63, 66, 100]))]
    if x + P < 2 ** 256:
        bad.append(b"\2" + (x + P).to_bytes(32, "big"))
    for b in bad:
        if ref.parse_pub(b) is not None or (len(b) == 64 and ref.on_curve(int.from_bytes(b[:32], "big"), int.from_bytes(b[32:], "big"))):
            continue
        obs.refused("PublicKey.from_bytes(%s)" % b.hex(), obs.call(S.PublicKey.from_bytes, b), api.REFUSED)
        obs.refused("Point.from_bytes(%s)" % b.hex(), obs.call(S.Point.from_bytes, b), api.REFUSED)
    edge_points(rng, api, obs)
    for u, w in ((x, (y + 1) % P), (y, x), (0, 0), (x, y + P), (x + P, y), (badx, y), (x, -y), (-x, y), (x, 0), (P - 1, y), (x ^ 1, y), (1, 1)):
        if not ref.on_curve(u, w):
            obs.refused("Point.from_coordinates(%x, %x)" % (u, w), obs.call(S.Point.from_coordinates, u, w), api.REFUSED)
    for b in (bytes(32), N.to_bytes(32, "big"), (N + 1 + rng.randrange(1 << 64)).to_bytes(32, "big"), b"\xff" * 32, kb[1:], kb + b"\0", b"\0" + kb, b"", kb + kb, kb[:16]):
        obs.refused("PrivateKey.from_bytes(%s)" % b.hex(), obs.call(S.PrivateKey.from_bytes, b), api.REFUSED)
    obs.nontrivial(k)
