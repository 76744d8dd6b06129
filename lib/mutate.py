"""Damaging and forging of Base58 strings."""

from . import lexicon, ref

FOREIGN = "0OIl +/=_-.,\t\n\r\0\u00e9\u0661\uff11\u2460\u200b\ufeff\u00a0"
LOOK = {"1": "lI|!", "o": "0O", "i": "1lI", "L": "lI1", "Q": "O0", "5": "S", "S": "5$", "8": "B", "B": "8", "2": "Z", "Z": "2"}
A = ref.BTC_ALPHABET


def variant(rng, c):
    """another character (or more) that NFKC, case folding, decoding or a typist's eye takes for c"""
    o = ord(c)
    out = [chr(o + 0xFEE0)]
    if c.isdigit():
        d = o - 48
        out += [chr(b + d) for b in (0x1D7CE, 0x1D7D8, 0x1D7F6, 0x660, 0x966, 0x1FBF0)] + ["\u2070\u00b9\u00b2\u00b3\u2074\u2075\u2076\u2077\u2078\u2079"[d], chr(0x2080 + d)]
    elif c.isalpha():
        i = o - (65 if c.isupper() else 97)
        out += [chr(b + i + (0 if c.isupper() else 26)) for b in (0x1D400, 0x1D5A0, 0x1D670, 0x1D63C)] + [chr((0x24B6 if c.isupper() else 0x24D0) + i)]
        out += [dict(zip("ABCEHKMPTXaceopxysijK", "\u0410\u0412\u0421\u0415\u041d\u041a\u041c\u0420\u0422\u0425\u0430\u0441\u0435\u043e\u0440\u0445\u0443\u0455\u0456\u0458\u212a")).get(c, c + "\u0301"), c + "\ufe00", c + "\u200d"]
    out += ["%%%02X" % o, "&#%d;" % o, "\\x%02x" % o, "\\u%04x" % o]
    return rng.choice(out)


def edits(rng, s):
    """One random edit of s -> (kind, text)"""
    k = rng.randrange(18)
    i = rng.randrange(len(s))
    lx = lexicon.get()
    if lx.strs and rng.random() < lx.rate(0.01, 0.15):
        w = rng.choice(lx.strs)
        t = rng.choice([w + s, s + w, s[:i] + w + s[i:], s[:i] + w + s[i + len(w):], s[:i] + rng.choice(w) + s[i + 1:], s[:i] + rng.choice(w) + s[i:], s.replace(rng.choice(s), rng.choice(w))])
        if t != s:
            return "word of the code", t
    if k == 0:
        return "substitute", s[:i] + rng.choice(A) + s[i + 1:]
    if k == 1:
        return "last characters", s[:-1 - rng.randrange(6)] + "".join(rng.choice(A) for _ in range(rng.randrange(1, 6)))
    if k == 2:
        return "delete", s[:i] + s[i + 1:]
    if k == 3:
        return "insert", s[:i] + rng.choice(A) + s[i:]
    if k == 4 and len(s) > 1:
        j = rng.randrange(len(s) - 1)
        return "transpose", s[:j] + s[j + 1] + s[j] + s[j + 2:]
    if k == 5:
        return "case of one", s[:i] + s[i].swapcase() + s[i + 1:]
    if k == 6:
        return "case of all", rng.choice([s.upper(), s.lower(), s.swapcase()])
    if k == 7:
        return "foreign substitute", s[:i] + rng.choice(FOREIGN) + s[i + 1:]
    if k == 8:
        return "foreign insert", s[:i] + rng.choice(FOREIGN) + s[i:]
    if k == 9:
        return "foreign around", rng.choice([rng.choice(FOREIGN) + s, s + rng.choice(FOREIGN), " " + s + " "])
    if k == 10:
        return "leading 1", "1" * rng.randrange(1, 4) + s
    if k == 11:
        return "look-alike", "".join(rng.choice(LOOK[c]) if c in LOOK and rng.random() < 0.3 else c for c in s)
    if k == 12:
        return "truncate", s[:rng.randrange(len(s))]
    if k == 13:
        return "extend", s + "".join(rng.choice(A) for _ in range(rng.randrange(1, 5)))
    if k == 14:
        return "double", s + s
    if k == 15:
        j = rng.randrange(len(s))
        return "two substitutions", "".join(rng.choice(A) if n in (i, j) else c for n, c in enumerate(s))
    if k == 16:                                   # characters that some normalisation or conversion turns into the right ones
        t = [variant(rng, c) for c in s]
        if rng.random() < 0.5:
            return "compatibility variant of one", s[:i] + t[i] + s[i + 1:]
        return "compatibility variants", "".join(v if rng.random() < 0.7 else c for c, v in zip(s, t))
    return "rotate", s[1:] + s[:1]


def flip(rng, raw):
    """One bit or byte of the raw payload, checksum left alone."""
    i = rng.randrange(len(raw))
    m = rng.choice([1 << rng.randrange(8), rng.randrange(1, 256)])
    return raw[:i] + bytes([raw[i] ^ m]) + raw[i + 1:]


def bad_checksum(rng, payload):
    """Right payload, checksum wrong in one chosen way."""
    chk = ref.sha256d(payload)[:4]
    k = rng.randrange(8)
    if k < 4:                                     # exactly one byte of it
        chk = chk[:k] + bytes([chk[k] ^ rng.randrange(1, 256)]) + chk[k + 1:]
    elif k == 4:
        chk = b"\0\0\0\0"
    elif k == 5:
        chk = chk[::-1]
    elif k == 6:
        chk = ref.sha256(payload)[:4]
    else:
        chk = ref.sha256d(payload)[-4:]
    return chk
