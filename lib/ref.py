"""Independent executable model of the formats bip38 implements.

Written from the published specifications (BIP-0038, SEC 1/2, FIPS-197, RFC 7914,
the Base58Check / WIF conventions), using only the Python standard library: nothing
here imports the code under test or any of the libraries it uses.
"""

import hashlib
import struct
import unicodedata

_sha256 = hashlib.sha256          # captured before any hook is installed
_real_scrypt = hashlib.scrypt
_pbkdf2 = hashlib.pbkdf2_hmac

BTC_ALPHABET = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
XRP_ALPHABET = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"


# ------------------------------------------------------------------ hashes
def sha256(b):
    return _sha256(b).digest()


def sha256d(b):
    return sha256(sha256(b))


_F = (
    lambda x, y, z: x ^ y ^ z,
    lambda x, y, z: (x & y) | (~x & z),
    lambda x, y, z: (x | ~y) ^ z,
    lambda x, y, z: (x & z) | (y & ~z),
    lambda x, y, z: x ^ (y | ~z),
)


def _rmd_tables():
    rho = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
    left = [list(range(16))]
    for _ in range(4):
        left.append([rho[i] for i in left[-1]])
    right = [[(9 * i + 5) % 16 for i in range(16)]]
    for _ in range(4):
        right.append([rho[i] for i in right[-1]])
    shifts = [
        [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
        [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
        [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
        [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
        [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5],
    ]
    kl = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]
    kr = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0]
    lt, rt = [], []
    for rnd in range(5):
        for w in left[rnd]:
            lt.append((w, shifts[rnd][w], kl[rnd], _F[rnd]))
        for w in right[rnd]:
            rt.append((w, shifts[rnd][w], kr[rnd], _F[4 - rnd]))
    return lt, rt


_LT, _RT = _rmd_tables()
_M32 = 0xFFFFFFFF


def ripemd160(msg):
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    ml = len(msg)
    msg = bytes(msg) + b"\x80"
    while len(msg) % 64 != 56:
        msg += b"\0"
    msg += struct.pack("<Q", (8 * ml) & 0xFFFFFFFFFFFFFFFF)
    for off in range(0, len(msg), 64):
        x = struct.unpack("<16L", msg[off:off + 64])
        lanes = []
        for table in (_LT, _RT):
            a, b, c, d, e = h
            for w, s, k, f in table:
                t = (a + (f(b, c, d) & _M32) + x[w] + k) & _M32
                t = ((t << s) | (t >> (32 - s))) & _M32
                t = (t + e) & _M32
                a, e, d, c, b = e, d, ((c << 10) | (c >> 22)) & _M32, b, t
            lanes.append((a, b, c, d, e))
        (al, bl, cl, dl, el), (ar, br, cr, dr, er) = lanes
        h = [
            (h[1] + cl + dr) & _M32, (h[2] + dl + er) & _M32, (h[3] + el + ar) & _M32,
            (h[4] + al + br) & _M32, (h[0] + bl + cr) & _M32,
        ]
    return struct.pack("<5L", *h)


def hash160(b):
    return ripemd160(sha256(b))


# ------------------------------------------------------------------ base58
def b58encode(b, alphabet=BTC_ALPHABET):
    n = int.from_bytes(b, "big")
    digits = []
    while n:
        n, r = divmod(n, 58)
        digits.append(alphabet[r])
    zeros = 0
    for byte in b:
        if byte:
            break
        zeros += 1
    return alphabet[0] * zeros + "".join(reversed(digits))


def b58decode(s, alphabet=BTC_ALPHABET):
    """Strict: None for any character outside the alphabet."""
    n = 0
    for ch in s:
        i = alphabet.find(ch)
        if i < 0:
            return None
        n = n * 58 + i
    zeros = len(s) - len(s.lstrip(alphabet[0]))
    return b"\0" * zeros + n.to_bytes((n.bit_length() + 7) // 8, "big")


def b58check(b, alphabet=BTC_ALPHABET):
    return b58encode(b + sha256d(b)[:4], alphabet)


def b58check_decode(s, alphabet=BTC_ALPHABET):
    raw = b58decode(s, alphabet)
    if raw is None or len(raw) < 4 or sha256d(raw[:-4])[:4] != raw[-4:]:
        return None
    return raw[:-4]


# ------------------------------------------------------------------ secp256k1
P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def on_curve(x, y):
    return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


def _jdbl(p):
    x, y, z = p
    if not z or not y:
        return (1, 1, 0)
    a = x * x % P
    b = y * y % P
    c = b * b % P
    d = 2 * ((x + b) * (x + b) - a - c) % P
    e = 3 * a % P
    x3 = (e * e - 2 * d) % P
    return x3, (e * (d - x3) - 8 * c) % P, 2 * y * z % P


def _jadd_affine(p, q):
    x1, y1, z1 = p
    if not z1:
        return q[0], q[1], 1
    zz = z1 * z1 % P
    u2 = q[0] * zz % P
    s2 = q[1] * zz * z1 % P
    h = (u2 - x1) % P
    r = (s2 - y1) % P
    if not h:
        return _jdbl(p) if not r else (1, 1, 0)
    hh = h * h % P
    hhh = h * hh % P
    v = x1 * hh % P
    x3 = (r * r - hhh - 2 * v) % P
    return x3, (r * (v - x3) - y1 * hhh) % P, z1 * h % P


def _affine(p):
    if not p[2]:
        return None
    zi = pow(p[2], -1, P)
    zi2 = zi * zi % P
    return p[0] * zi2 % P, p[1] * zi2 * zi % P


def ec_add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return _affine(_jadd_affine((a[0], a[1], 1), b))


def ec_neg(a):
    return None if a is None else (a[0], (-a[1]) % P)


_GTAB = None


def _gtab():
    """_GTAB[i][j] = j * 16**i * G for j in 1..15"""
    global _GTAB
    if _GTAB is None:
        tab, base = [], G
        for _ in range(64):
            row, acc = [None], None
            for _j in range(15):
                acc = ec_add(acc, base)
                row.append(acc)
            tab.append(row)
            base = ec_add(acc, base)
        _GTAB = tab
    return _GTAB


def ec_mul(k, pt=None):
    if pt is None or pt == G:
        k %= N
        acc = (1, 1, 0)
        for row in _gtab():
            j = k & 15
            if j:
                acc = _jadd_affine(acc, row[j])
            k >>= 4
        return _affine(acc)
    acc = (1, 1, 0)
    for bit in bin(k % N)[2:]:
        acc = _jdbl(acc)
        if bit == "1":
            acc = _jadd_affine(acc, pt)
    return _affine(acc)


def ser_pub(pt, compressed):
    x, y = pt
    xb = x.to_bytes(32, "big")
    return (b"\x03" if y & 1 else b"\x02") + xb if compressed else b"\x04" + xb + y.to_bytes(32, "big")


def lift_x(x, odd):
    if not 0 <= x < P:
        return None
    y = pow((x * x * x + 7) % P, (P + 1) // 4, P)
    if (y * y - x * x * x - 7) % P:
        return None
    return x, (y if (y & 1) == odd else P - y)


def parse_pub(b):
    """SEC1 compressed / uncompressed -> affine point, or None."""
    if len(b) == 33 and b[0] in (2, 3):
        return lift_x(int.from_bytes(b[1:], "big"), b[0] & 1)
    if len(b) == 65 and b[0] == 4:
        x, y = int.from_bytes(b[1:33], "big"), int.from_bytes(b[33:], "big")
        return (x, y) if on_curve(x, y) else None
    return None


# ------------------------------------------------------------------ AES-256 (single block)
def _aes_tables():
    exp, log, x = [0] * 512, [0] * 256, 1
    for i in range(255):
        exp[i] = x
        log[x] = i
        x ^= (x << 1) ^ (0x11B if x & 0x80 else 0)
        x &= 0xFF
    for i in range(255, 512):
        exp[i] = exp[i - 255]
    sbox = [0] * 256
    for v in range(256):
        inv = exp[255 - log[v]] if v else 0
        s = inv
        for sh in range(1, 5):
            s ^= ((inv << sh) | (inv >> (8 - sh))) & 0xFF
        sbox[v] = s ^ 0x63
    inv_sbox = [0] * 256
    for i, v in enumerate(sbox):
        inv_sbox[v] = i
    mul = {c: [exp[log[c] + log[v]] if v else 0 for v in range(256)] for c in (2, 3, 9, 11, 13, 14)}
    return sbox, inv_sbox, mul


_SB, _ISB, _MUL = _aes_tables()


def _expand(key):
    w = [list(key[i:i + 4]) for i in range(0, 32, 4)]
    rcon = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [_SB[b] for b in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon = _MUL[2][rcon]
        elif i % 8 == 4:
            t = [_SB[b] for b in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(15)]


_SHIFT = [0, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12, 1, 6, 11]
_UNSHIFT = [0, 13, 10, 7, 4, 1, 14, 11, 8, 5, 2, 15, 12, 9, 6, 3]


def aes_enc(key, block):
    assert len(key) == 32 and len(block) == 16
    rk = _expand(key)
    s = [a ^ b for a, b in zip(block, rk[0])]
    m2, m3 = _MUL[2], _MUL[3]
    for r in range(1, 15):
        s = [_SB[s[i]] for i in _SHIFT]
        if r < 14:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [m2[a] ^ m3[b] ^ d ^ e, a ^ m2[b] ^ m3[d] ^ e,
                      a ^ b ^ m2[d] ^ m3[e], m3[a] ^ b ^ d ^ m2[e]]
            s = t
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


def aes_dec(key, block):
    assert len(key) == 32 and len(block) == 16
    rk = _expand(key)
    s = [a ^ b for a, b in zip(block, rk[14])]
    m9, mb, md, me = _MUL[9], _MUL[11], _MUL[13], _MUL[14]
    for r in range(13, -1, -1):
        s = [_ISB[s[i]] for i in _UNSHIFT]
        s = [a ^ b for a, b in zip(s, rk[r])]
        if r:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [me[a] ^ mb[b] ^ md[d] ^ m9[e], m9[a] ^ me[b] ^ mb[d] ^ md[e],
                      md[a] ^ m9[b] ^ me[d] ^ mb[e], mb[a] ^ md[b] ^ m9[d] ^ me[e]]
            s = t
    return bytes(s)


def xor(a, b):
    assert len(a) == len(b)
    return bytes(x ^ y for x, y in zip(a, b))


# ------------------------------------------------------------------ key derivation
_CACHE = {}


def real_kdf(pw, salt, n, r, p, dklen):
    k = (pw, salt, n, r, p)
    v = _CACHE.get(k)
    if v is None or len(v) < dklen:
        v = _real_scrypt(pw, salt=salt, n=n, r=r, p=p, maxmem=1 << 27, dklen=max(64, dklen))
        if len(_CACHE) > 4096:
            _CACHE.clear()
        _CACHE[k] = v
    return v[:dklen]


def stub_kdf(pw, salt, n, r, p, dklen):
    """Cheap stand-in with scrypt's interface properties: depends on every parameter,
    shorter outputs are prefixes of longer ones, HMAC key rules for the password.
    One output in four has a shape scrypt's outputs have too rarely to be met in a test:
    runs of 00 or ff where halves begin and end (or anywhere), halves that are all alike."""
    out = _pbkdf2("sha256", pw, b"kdf-stand-in" + struct.pack(">QLLL", n, r, p, len(salt)) + salt, 1, max(dklen, 64))
    d = hashlib.sha256(b"shape" + out[:64]).digest()
    if d[0] >= 64:
        return out[:dklen]
    b = bytearray(out)
    for i in range(1 + d[1] % 2):
        at, n_, v = (0, 16, 32, 48, 15, 31, 47, 63, 8, 24)[d[2 + 3 * i] % 10], 1 + d[3 + 3 * i] % 4, (0, 0, 0, 0, 255, 255, 255, 128, 1, 48, 10, 13, 32)[d[4 + 3 * i] % 13]
        if d[14] < 48:
            at, n_ = 1 + d[15 + i] % 56, 2 + d[13] % 3         # anywhere
        elif at % 16 == 15:
            at -= n_ - 1
        elif not v and d[12] < 48:
            n_ = 1 + d[13] % 12                            # leaves passphrases apart
        if at or n_ < 4 or v != 255:                       # leaves factors below the order of the curve
            b[at:at + n_] = bytes([v]) * n_
    if n <= 1024 and d[8] < 80:
        at, v = 16 * (d[9] % 4), d[10] % 3
        b[at:at + 16] = (bytes(16), b"\xff" * 16, b[16 * (d[11] % 4):][:16])[v]
    return bytes(b[:dklen])


def pw_bytes(passphrase):
    return unicodedata.normalize("NFC", passphrase).encode("utf-8")


# ------------------------------------------------------------------ WIF / addresses
def pfx(i):
    return i.to_bytes(max(1, (i.bit_length() + 7) // 8), "big")


def wif_encode(priv, prefix, compressed):
    return b58check(pfx(prefix) + priv + (b"\x01" if compressed else b""))


def wif_decode(s, prefix):
    """-> (private key bytes, compressed) or None"""
    raw = b58check_decode(s)
    p = pfx(prefix)
    if raw is None or not raw.startswith(p):
        return None
    body = raw[len(p):]
    if len(body) == 32:
        return body, False
    if len(body) == 33 and body[32] == 1:
        return body[:32], True
    return None


def address(pub_bytes, prefix, alphabet=BTC_ALPHABET):
    return b58check(pfx(prefix) + hash160(pub_bytes), alphabet)


def addr_hash(addr):
    return sha256d(addr.encode("ascii"))[:4]


# ------------------------------------------------------------------ BIP38
MAGIC_LOT = bytes.fromhex("2ce9b3e1ff39e251")
MAGIC_NOLOT = bytes.fromhex("2ce9b3e1ff39e253")
CFRM = bytes.fromhex("643bf6a89a")


class Refused(Exception):
    """kind: 'format' (not a well formed string), 'passphrase' (does not open)"""

    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


def _pt(priv_int):
    return ec_mul(priv_int)


def pubkey(priv, compressed):
    return ser_pub(_pt(int.from_bytes(priv, "big")), compressed)


def encrypt(priv, compressed, addr_prefix, passphrase, kdf, alphabet=BTC_ALPHABET):
    """Non-EC-multiplied encryption. Returns (string, info)."""
    addr = address(pubkey(priv, compressed), addr_prefix, alphabet)
    ah = addr_hash(addr)
    dk = kdf(pw_bytes(passphrase), ah, 16384, 8, 8, 64)
    x1, x2 = xor(priv[:16], dk[:16]), xor(priv[16:], dk[16:32])
    e = aes_enc(dk[32:], x1) + aes_enc(dk[32:], x2)
    s = b58check(b"\x01\x42" + (b"\xe0" if compressed else b"\xc0") + ah + e)
    return s, dict(address=addr, x1=x1, x2=x2)


def intermediate(passphrase, salt, lot, sequence, kdf):
    if lot is not None:
        owner_salt = salt[:4]
        pre = kdf(pw_bytes(passphrase), owner_salt, 16384, 8, 8, 32)
        entropy = owner_salt + (lot * 4096 + sequence).to_bytes(4, "big")
        pf = sha256d(pre + entropy)
        magic = MAGIC_LOT
    else:
        assert len(salt) == 8
        entropy = salt
        pf = kdf(pw_bytes(passphrase), salt, 16384, 8, 8, 32)
        magic = MAGIC_NOLOT
    pp = ser_pub(_pt(int.from_bytes(pf, "big")), True)
    return b58check(magic + entropy + pp), dict(pass_factor=pf, entropy=entropy, pass_point=pp)


def create(inter, compressed, seed, addr_prefix, kdf, alphabet=BTC_ALPHABET):
    """inter: intermediate passphrase string -> dict as reported to the user, info"""
    raw = b58check_decode(inter)
    if raw is None or len(raw) != 49 or raw[:8] not in (MAGIC_LOT, MAGIC_NOLOT):
        raise Refused("format")
    lot = raw[:8] == MAGIC_LOT
    entropy, pp = raw[8:16], raw[16:]
    point = parse_pub(pp)
    if point is None:
        raise Refused("format")
    assert len(seed) == 24
    fb = sha256d(seed)
    fbi = int.from_bytes(fb, "big")
    gen = ec_mul(fbi, point)
    pub = ser_pub(gen, compressed)
    addr = address(pub, addr_prefix, alphabet)
    ah = addr_hash(addr)
    dk = kdf(pp, ah + entropy, 1024, 1, 1, 64)
    k = dk[32:]
    x1 = xor(seed[:16], dk[:16])
    e1 = aes_enc(k, x1)
    x2 = xor(e1[8:] + seed[16:], dk[16:32])
    e2 = aes_enc(k, x2)
    flag = bytes([(0x20 if compressed else 0) | (4 if lot else 0)])
    enc = b58check(b"\x01\x43" + flag + ah + entropy + e1[:8] + e2)
    pb = ser_pub(_pt(fbi), True)
    y1, y2 = xor(pb[1:17], dk[:16]), xor(pb[17:], dk[16:32])
    epb = bytes([pb[0] ^ (dk[63] & 1)]) + aes_enc(k, y1) + aes_enc(k, y2)
    cfrm = b58check(CFRM + flag + ah + entropy + epb)
    return dict(
        encrypted_wif=enc, confirmation_code=cfrm, public_key=pub.hex(), seed=seed.hex(),
        public_key_type="compressed" if compressed else "uncompressed", address=addr,
    ), dict(x1=x1, x2=x2, y1=y1, y2=y2, factor_b=fb, point_b=pb, h1tail=e1[8:])


def _lotseq(entropy, lot):
    if not lot:
        return None, None
    v = int.from_bytes(entropy[4:], "big")
    return v >> 12, v & 0xFFF


def _owner(passphrase, entropy, lot, kdf):
    salt = entropy[:4] if lot else entropy
    pf = kdf(pw_bytes(passphrase), salt, 16384, 8, 8, 32)
    if lot:
        pf = sha256d(pf + entropy)
    if not 0 < int.from_bytes(pf, "big") < N:
        raise Refused("passphrase")
    return pf


def decrypt(enc, passphrase, wif_prefix, addr_prefix, kdf, alphabet=BTC_ALPHABET, flags="strict"):
    raw = b58check_decode(enc)
    if raw is None or len(raw) != 39 or raw[:2] not in (b"\x01\x42", b"\x01\x43"):
        raise Refused("format")
    flag, ah = raw[2], raw[3:7]
    seed = lot = seq = None
    if raw[1] == 0x42:
        if flag not in (0xC0, 0xE0):
            raise Refused("format")
        compressed = flag == 0xE0
        dk = kdf(pw_bytes(passphrase), ah, 16384, 8, 8, 64)
        priv = xor(aes_dec(dk[32:], raw[7:23]) + aes_dec(dk[32:], raw[23:39]), dk[:32])
    else:
        if flag & ~0x3C or (flags == "strict" and flag & 0x18):
            raise Refused("format")
        compressed = bool(flag & 0x20)
        is_lot = bool(flag & 4)
        entropy = raw[7:15]
        pf = _owner(passphrase, entropy, is_lot, kdf)
        pp = ser_pub(_pt(int.from_bytes(pf, "big")), True)
        dk = kdf(pp, ah + entropy, 1024, 1, 1, 64)
        k = dk[32:]
        tail = xor(aes_dec(k, raw[23:39]), dk[16:32])
        seed = xor(aes_dec(k, raw[15:23] + tail[:8]), dk[:16]) + tail[8:]
        fb = int.from_bytes(sha256d(seed), "big")
        if not 0 < fb < N:
            raise Refused("passphrase")
        priv = (int.from_bytes(pf, "big") * fb % N).to_bytes(32, "big")
        lot, seq = _lotseq(entropy, is_lot)
    if not 0 < int.from_bytes(priv, "big") < N:
        raise Refused("passphrase")
    pub = pubkey(priv, compressed)
    addr = address(pub, addr_prefix, alphabet)
    if addr_hash(addr) != ah:
        raise Refused("passphrase")
    return dict(
        wif=wif_encode(priv, wif_prefix, compressed), private_key=priv.hex(),
        wif_type="wif-compressed" if compressed else "wif", public_key=pub.hex(),
        public_key_type="compressed" if compressed else "uncompressed",
        seed=None if seed is None else seed.hex(), address=addr, lot=lot, sequence=seq,
    )


def confirm(passphrase, code, addr_prefix, kdf, alphabet=BTC_ALPHABET, flags="strict"):
    raw = b58check_decode(code)
    if raw is None or len(raw) != 51 or raw[:5] != CFRM:
        raise Refused("format")
    flag, ah, entropy, epb = raw[5], raw[6:10], raw[10:18], raw[18:]
    if flag & ~0x3C or (flags == "strict" and flag & 0x18):
        raise Refused("format")
    compressed, is_lot = bool(flag & 0x20), bool(flag & 4)
    pf = _owner(passphrase, entropy, is_lot, kdf)
    pfi = int.from_bytes(pf, "big")
    pp = ser_pub(_pt(pfi), True)
    dk = kdf(pp, ah + entropy, 1024, 1, 1, 64)
    k = dk[32:]
    pb = bytes([epb[0] ^ (dk[63] & 1)]) + xor(aes_dec(k, epb[1:17]), dk[:16]) + xor(aes_dec(k, epb[17:]), dk[16:32])
    point = parse_pub(pb)
    if point is None:
        raise Refused("passphrase")
    pub = ser_pub(ec_mul(pfi, point), compressed)
    addr = address(pub, addr_prefix, alphabet)
    if addr_hash(addr) != ah:
        raise Refused("passphrase")
    lot, seq = _lotseq(entropy, is_lot)
    return dict(public_key=pub.hex(), public_key_type="compressed" if compressed else "uncompressed",
                address=addr, lot=lot, sequence=seq)


# ------------------------------------------------------------------ self test
def selftest(slow=True):
    assert ripemd160(b"").hex() == "9c1185a5c5e9fc54612808977ee8f548b2258d31"
    assert ripemd160(b"1234567890" * 8).hex() == "9b752e45573d4b39f4dbd3323cab82bf63326bfb"
    key = bytes(range(32))
    ct = aes_enc(key, bytes.fromhex("00112233445566778899aabbccddeeff"))
    assert ct.hex() == "8ea2b7ca516745bfeafc49904b496089"        # FIPS-197 C.3
    assert aes_dec(key, ct).hex() == "00112233445566778899aabbccddeeff"
    assert ec_mul(N - 1) == ec_neg(G) and ec_mul(N) is None and ec_mul(2) == ec_add(G, G)
    assert ec_mul(2)[0] == 0xC6047F9441ED7D6D3045406E95C07CD85C778E4B8CEF3CA7ABAC09B95C709EE5
    h = ec_mul(7)
    assert ec_mul(12345678901234567890, h) == ec_mul(7 * 12345678901234567890)
    assert b58encode(b"\0\0\x01") == "112" and b58decode("112") == b"\0\0\x01"
    n = 11
    if slow:
        for vec in BIP_VECTORS:
            got = decrypt(vec[0], vec[1], 0x80, 0, real_kdf)
            assert got["wif"] == vec[2], vec
            n += 1
            if vec[3] is not None:                                # non-EC: encryption is deterministic
                assert encrypt(bytes.fromhex(got["private_key"]), vec[3], 0, vec[1], real_kdf)[0] == vec[0]
                n += 1
        for code, phrase, addr, lot in BIP_CFRM:
            got = confirm(phrase, code, 0, real_kdf)
            assert got["address"] == addr and got["lot"] == lot
            n += 1
    return n


# The vectors published in BIP-0038 itself: (encrypted, passphrase, wif, compressed if non-EC)
BIP_VECTORS = [
    ("6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", "TestingOneTwoThree",
     "5KN7MzqK5wt2TP1fQCYyHBtDrXdJuXbUzm4A9rKAteGu3Qi5CVR", False),
    ("6PRNFFkZc2NZ6dJqFfhRoFNMR9Lnyj7dYGrzdgXXVMXcxoKTePPX1dWByq", "Satoshi",
     "5HtasZ6ofTHP6HCwTqTkLDuLQisYPah7aUnSKfC7h4hMUVw2gi5", False),
    ("6PYNKZ1EAgYgmQfmNVamxyXVWHzK5s6DGhwP4J5o44cvXdoY7sRzhtpUeo", "TestingOneTwoThree",
     "L44B5gGEpqEDRS9vVPz7QT35jcBG2r3CZwSwQ4fCewXAhAhqGVpP", True),
    ("6PYLtMnXvfG3oJde97zRyLYFZCYizPU5T3LwgdYJz1fRhh16bU7u6PPmY7", "Satoshi",
     "KwYgW8gcxj1JWJXhPSu4Fqwzfhp5Yfi42mdYmMa4XqK7NJxXUSK7", True),
    ("6PfQu77ygVyJLZjfvMLyhLMQbYnu5uguoJJ4kMCLqWwPEdfpwANVS76gTX", "TestingOneTwoThree",
     "5K4caxezwjGCGfnoPTZ8tMcJBLB7Jvyjv4xxeacadhq8nLisLR2", None),
    ("6PfLGnQs6VZnrNpmVKfjotbnQuaJK4KZoPFrAjx1JMJUa1Ft8gnf5WxfKd", "Satoshi",
     "5KJ51SgxWaAYR13zd9ReMhJpwrcX47xTJh2D3fGPG9CM8vkv5sH", None),
    ("6PgNBNNzDkKdhkT6uJntUXwwzQV8Rr2tZcbkDcuC9DZRsS6AtHts4Ypo1j", "MOLON LABE",
     "5JLdxTtcTHcfYcmJsNVy1v2PMDx432JPoYcBTVVRHpPaxUrdtf8", None),
    ("6PgGWtx25kUg8QWvwuJAgorN6k9FbE25rv5dMRwu5SKMnfpfVe5mar2ngH",
     "\u039c\u039f\u039b\u03a9\u039d \u039b\u0391\u0392\u0395",
     "5KMKKuUmAkiNbA3DazMQiLfDq47qs8MAEThm4yL8R2PhV1ov33D", None),
]
BIP_CFRM = [
    ("cfrm38V8aXBn7JWA1ESmFMUn6erxeBGZGAxJPY4e36S9QWkzZKtaVqLNMgnifETYw7BPwWC9aPD", "MOLON LABE",
     "1Jscj8ALrYu2y9TD8NrpvDBugPedmbj4Yh", 263183),
    ("cfrm38V8G4qq2ywYEFfWLD5Cc6msj9UwsG2Mj4Z6QdGJAFQpdatZLavkgRd1i4iBMdRngDqDs51",
     "\u039c\u039f\u039b\u03a9\u039d \u039b\u0391\u0392\u0395",
     "1Lurmih3KruL4xDB5FmHof38yawNtP9oGf", 806938),
]

if __name__ == "__main__":
    import time
    t = time.time()
    print("reference self-test:", selftest(), "checks passed in %.1fs" % (time.time() - t))
