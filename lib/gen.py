"""Workload generators (seeded; everything they return is JSON-serialisable)."""

import unicodedata

from . import lexicon, ref

N = ref.N


def lex():
    return lexicon.get()


def number(rng, default, lo=None, hi=None, low=0.01, high=0.2):
    """default, or now and then a number the code under test mentions"""
    if rng.random() < lex().rate(low, high):
        v = lex().int(rng, lo, hi)
        if v is not None:
            return v
    return default


def hexb(rng, n):
    return rng.randbytes(n).hex()


# ------------------------------------------------------------------ byte patterns
def shaped(rng, n):
    """n bytes with the shapes fixed-width handling gets wrong"""
    k = rng.randrange(23)
    b = bytearray(rng.randbytes(n))
    if rng.random() < lex().rate(0.01, 0.2):
        return lex().data(rng, n, b)
    if k <= 4:
        pass
    elif k == 5:
        z = rng.choice([1, 1, 2, 3, n // 2, n - 1])
        b[:z] = bytes(z)
    elif k == 6:
        z = rng.choice([1, 1, 2, 3, n // 2, n - 1])
        b[n - z:] = bytes(z)
    elif k == 7:
        h = n // 2
        z = rng.choice([1, 2, n - h])
        b[h:h + z] = bytes(z)
    elif k == 8:
        b[-1] = rng.choice([0, 1, 1, 1, 0x80, 0xFF])
    elif k == 9:
        b[0] = rng.choice([0, 1, 2, 3, 4, 0x7F, 0x80, 0xFF, 0xEF])
    elif k == 10:
        b[:] = bytes([rng.choice([0x01, 0x0A, 0x20, 0x30, 0x7F, 0x80, 0xAA, 0xFE])]) * n
    elif k == 11:
        b[:] = bytes(n)
        b[rng.randrange(n)] = 1 << rng.randrange(8)
    elif k == 12:
        for _ in range(n // 2):
            b[rng.randrange(n)] = 0
    elif k == 13:
        b[:] = bytes(rng.choice(b"0123456789abcdef") for _ in range(n))       # ASCII that is also hex
    elif k == 14:
        b[:] = bytes(rng.choice(b" \t\r\n09azAZ") for _ in range(n))
    elif k == 15:
        h = n // 2
        b[h:h + h] = b[:h]
    elif k == 16:
        b[:] = bytes([rng.choice([0, 0, 0, 0xFF])]) * n
    elif k == 17:                                                             # hex that reads like a decimal, a float, another base or a word
        t = _chars(rng, rng.choice(["0123456789"] * 3 + ["01", "abcdef", "01234567", "0b"]), 2 * n)
        r = rng.randrange(6)
        if r == 0:
            i = rng.randrange(1, 2 * n - 2)
            t = t[:i] + "e" + t[i + 1:]
        elif r == 1:
            t = rng.choice(["0b", "0e", "00", "1e", "e", "face", "0d", "0a", "b0"]) + t
        b[:] = bytes.fromhex(t[:2 * n])
    elif k == 18:                                                             # mirror images
        b[(n + 1) // 2:] = b[:n // 2][::-1]
        if rng.random() < 0.5:
            b[:] = bytes.fromhex((b.hex()[:n] + b.hex()[:n][::-1])[:2 * n])
    elif k == 19:                                                             # a short unit repeated, or counting
        u = rng.choice([2, 3, 4, 8, 16])
        b[:] = (bytes(b[:u]) * n)[:n] if rng.random() < 0.6 else bytes((b[0] + i * rng.choice([1, 1, -1])) % 256 for i in range(n))
    elif k == 20:                                                             # text
        t = "".join(rng.choice(["pass", "word", "\u00e9", "e\u0301", "\u20ac", " ", "1", "Satoshi", "\U0001f600", "5K", "\0"]) for _ in range(n)).encode()
        b[:] = t[:n]
    else:
        b[:] = bytes(sorted(b)) if rng.random() < 0.5 else b.hex().encode()[:n]
    return bytes(b)


def key(rng):
    """private key in [1, n-1] as 32 bytes"""
    while True:
        k = rng.randrange(20)
        if k == 0:
            v = rng.choice([1, 2, 3, 7, 255, 256, 65535, 65536, 2 ** 127, 2 ** 128 - 1, 2 ** 128, 2 ** 255, 2 ** 248 - 1, 2 ** 248])
        elif k == 1:
            v = N - rng.choice([1, 2, 3, 255, 256, 2 ** 64, 2 ** 128])
        elif k == 2:
            v = (N // 2) + rng.randrange(-3, 4)
        else:
            v = int.from_bytes(shaped(rng, 32), "big")
        v = number(rng, v, 1, N - 1, 0.005, 0.1)
        if 0 < v < N:
            return v.to_bytes(32, "big")


def salt(rng, n=8):
    return shaped(rng, n)


def seed24(rng):
    return shaped(rng, 24)


LOTS = [100000, 100001, 999999, 999998, 131071, 131072, 262143, 262144, 524287, 524288, 100096, 256000, 200000, 263183, 806938]
SEQS = [0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4094, 4095]


def lotseq(rng, none=0.35):
    if rng.random() < none:
        return None, None
    lot = rng.choice(LOTS) if rng.random() < 0.4 else rng.randrange(100000, 1000000)
    if rng.random() < 0.15:
        lot = (lot >> 8 << 8) if (lot >> 8 << 8) >= 100000 else lot
    seq = rng.choice(SEQS) if rng.random() < 0.5 else rng.randrange(0, 4096)
    lot = number(rng, lot, 100000, 999999)
    seq = number(rng, seq, 0, 4095)
    if rng.random() < lex().rate(0.005, 0.05):
        v = lex().int(rng, 0, 4095)
        if v is not None:
            seq, lot = rng.choice([(seq & ~v, lot), (seq | v, lot), (seq, 100000 + v), (seq, max(100000, lot // (v or 1) * (v or 1))), (seq // (v or 1) * (v or 1), lot)])
    return lot, seq


# ------------------------------------------------------------------ passphrases
ASCII = "".join(chr(i) for i in range(33, 127))
COMPOSED = ("\u00e9\u00c5\u00f1\u00fc\u00d6\u1e69\u1ec7\u01d5\u0344\u1f82\u0390\u0439\u0451\u30ac\u30d1"
            "\uac00\ud55c\uae00\uac01\ub4dc\u0929\u09cb\u0b94\u0dde\u1026\u1b06")
SINGLETONS = "\u212b\u2126\u212a\u0374\u037e\u0387\u2000\u2001\u2329\u232a\uf900\uf9ff\ufa10\u0340\u0341\u1f71\u1fbb\u0958\u0959\ufb1d\ufb2a\u2adc\u1fef\u2f9b"
COMPAT = "\ufb01\ufb03\u2460\u00bd\u2122\uff21\uff41\uff10\u00b2\u2075\u210c\u017f\u1e9b\u3392\u33c7\ufe30\u00aa\u00b5\u00a0\u2003\u3000\ufdfa\u2167\u3131\uffa1"
CASED = "\u00df\u0130\u0131\u03c2\u03c3\u03a3\u01c5\u1e9e\u0149\ufb00\u0587\u10d0\uab70"
ASTRAL = "\U0001f600\U0001f468\u200d\U0001f469\U00010400\U0001d400\U0001d15e\U00020000\U0002f800\U0002fa1d\U000110ab\U0001113c\U000e0100"
INVISIBLE = "\u200b\u200c\u200d\ufeff\u00ad\u2060\u180e\u034f\u0085\u2028\u2029\u200e\u202e\ufe0f"
CONTROL = "\t\n\r\x0b\x0c\x01\x07\x1b\x1f\x7f"
MARKS = "\u0301\u0300\u0323\u0307\u0308\u0327\u0328\u030a\u0345\u0338\u093c\u05b0\u05bc\u3099\u0f71\u0f72"
PIECES = ("Test", "pass", "word", "Satoshi", "0x", "deadbeef", "00", "%s", "%d", "{0}", "\\n", "\\x00", "\\u00e9", "'", "\"", "6P", "5K", "passphrase", "cfrm", "None", "nan", "  ")


def _chars(rng, pool, n):
    return "".join(rng.choice(pool) for _ in range(n))


def passphrase(rng, kind=None):
    """-> (text, kind)"""
    kinds = ("ascii ascii pieces empty space long64 long long-unicode composed decomposed singleton compat cased astral "
             "invisible control nul marks mixed hexlike digits hangul anyplane typed seam lengths").split()
    a = _chars(rng, ASCII, rng.randrange(1, 16))
    if kind is None and rng.random() < lex().rate(0.02, 0.25):
        s = lex().text(rng, a if rng.random() < 0.7 else "")
        return (s.rstrip("\0") if len(s) < 200 else s), "from the code's constants"
    kind = kind or rng.choice(kinds)
    if kind == "ascii":
        s = a
    elif kind == "pieces":
        s = "".join(rng.choice(PIECES) for _ in range(rng.randrange(1, 5)))
    elif kind == "empty":
        s = ""
    elif kind == "space":
        w = rng.choice([" ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u3000"])
        s = rng.choice([w + a, a + w, w + a + w, w, a[:1] + w + a[1:]])
    elif kind == "long64":
        s = _chars(rng, ASCII, rng.randrange(60, 70))
    elif kind == "long":
        s = _chars(rng, ASCII, rng.choice([72, 73, 127, 128, 129, 255, 256, 257, 500, 1024, 4097]))
    elif kind == "long-unicode":
        s = _chars(rng, COMPOSED + ASTRAL + COMPAT, rng.choice([16, 20, 22, 31, 33, 64, 65, 130, 600]))
    elif kind == "composed":
        s = unicodedata.normalize("NFC", a[:3] + _chars(rng, COMPOSED, rng.randrange(1, 6)) + a[3:6])
    elif kind == "decomposed":
        s = unicodedata.normalize("NFD", a[:3] + _chars(rng, COMPOSED, rng.randrange(1, 6)) + a[3:6])
    elif kind == "singleton":
        s = a[:2] + _chars(rng, SINGLETONS, rng.randrange(1, 4))
    elif kind == "compat":
        s = a[:2] + _chars(rng, COMPAT, rng.randrange(1, 5)) + a[2:4]
    elif kind == "cased":
        s = _chars(rng, CASED + "iIsSK", rng.randrange(1, 8))
    elif kind == "astral":
        s = _chars(rng, ASTRAL, rng.randrange(1, 6)) + a[:2]
    elif kind == "invisible":
        s = a[:3] + _chars(rng, INVISIBLE, rng.randrange(1, 3)) + a[3:]
    elif kind == "control":
        s = a[:3] + _chars(rng, CONTROL, rng.randrange(1, 3)) + a[3:]
    elif kind == "nul":
        s = a[:3] + "\0" + a[3:] + "x"
    elif kind == "marks":
        s = a[:1] + _chars(rng, MARKS, rng.randrange(1, 5)) + a[1:3]
    elif kind == "typed":
        s = "".join(rng.choice([rng.choice(SWAPS)[0], rng.choice(SWAPS)[1], " ", "pass", "Word", "\u00fc", "17", ".", a[:3]]) for _ in range(rng.randrange(2, 7)))
    elif kind == "seam":                                  # a sequence that composes (or reorders) across a round length
        at = rng.choice([4, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 255, 256, 500, 512, 1000, 1024, 2048, 4096])
        mid = rng.choice(["e\u0301", "a\u0323\u0302", "\u1100\u1161\u11a8", "u\u0308\u0301", "\u30ab\u3099", "q\u0307\u0323", "\U0001d15e", "\u212b\u0301"])
        s = _chars(rng, rng.choice([ASCII, "a", "\u00e9"]), max(0, at - rng.randrange(1, len(mid) + 1))) + mid + a[:rng.randrange(4)]
    elif kind == "lengths":
        s = _chars(rng, rng.choice([ASCII, "a", "0", "\u00fc", COMPOSED]), rng.randrange(1, rng.choice([12, 40, 140])))
    elif kind == "hexlike":
        s = _chars(rng, "0123456789abcdef", 2 * rng.randrange(1, 20))
    elif kind == "digits":
        s = str(rng.randrange(10 ** rng.randrange(1, 20)))
    elif kind == "hangul":
        s = "".join(chr(rng.randrange(0xAC00, 0xD7A4)) for _ in range(rng.randrange(1, 6)))
        if rng.random() < 0.5:
            s = unicodedata.normalize("NFD", s)
    elif kind == "anyplane":
        out = []
        while len(out) < 6:
            c = rng.choice([rng.randrange(0x20, 0x800), rng.randrange(0x800, 0x10000), rng.randrange(0x10000, 0x110000)])
            if not 0xD800 <= c < 0xE000:
                out.append(chr(c))
        s = "".join(out)
    else:
        s = "".join(passphrase(rng, rng.choice(kinds[:-1]))[0][:6] for _ in range(3)) if kind == "mixed" else a
    if len(s) < 200 and kind != "nul":
        s = s.rstrip("\0")
    return s, kind


def canon(s):
    """What scrypt can tell apart: NFC text, UTF-8, HMAC key rules."""
    import hashlib
    b = unicodedata.normalize("NFC", s).encode("utf-8")
    if len(b) > 64:
        b = hashlib.sha256(b).digest()
    return b.rstrip(b"\0")


def near_misses(rng, s):
    """Passphrases close to s that are different passphrases (kind, text)."""
    out = []

    def add(kind, t):
        try:
            if canon(t) != canon(s):
                out.append((kind, t))
        except UnicodeEncodeError:
            pass
    add("append", s + rng.choice("x1 .\n"))
    add("append space", s + " ")
    add("prepend", rng.choice("x1 .\n") + s)
    add("append BOM/ZW", s + rng.choice("\ufeff\u200b\u00ad"))
    add("append combining mark", s + "\u0301")
    add("upper", s.upper())
    add("lower", s.lower())
    add("swapcase", s.swapcase())
    add("casefold", s.casefold())
    add("strip", s.strip())
    add("NFKC", unicodedata.normalize("NFKC", s))
    add("no marks", "".join(c for c in unicodedata.normalize("NFD", s) if not unicodedata.combining(c)))
    add("ascii only", s.encode("ascii", "ignore").decode())
    add("double", s + s)
    add("reverse", s[::-1])
    add("empty", "")
    add("nul then more", s + "\0x")
    add("quoted", repr(s))
    if s:
        i = rng.randrange(len(s))
        add("drop one", s[:i] + s[i + 1:])
        add("drop last", s[:-1])
        add("drop first", s[1:])
        add("one code point", s[:i] + chr((ord(s[i]) ^ 1)) + s[i + 1:])
        add("flip case of one", s[:i] + s[i].swapcase() + s[i + 1:])
        add("last code point", s[:-1] + chr(ord(s[-1]) ^ 1))
        for n in (4, 8, 16, 20, 32, 63, 64, 72, 128, 255, 256):
            if len(s) > n:
                add("truncate %d" % n, s[:n])
                add("change after %d" % n, s[:n] + chr(ord(s[n]) ^ 1) + s[n + 1:])
        if len(s) > 1:
            j = rng.randrange(len(s) - 1)
            add("swap adjacent", s[:j] + s[j + 1] + s[j] + s[j + 2:])
    for a, b in (("a", "\u0430"), ("o", "0"), ("e", "\u0435"), ("l", "1"), ("A", "\uff21"), ("-", "\u2010"), ("'", "\u2019"), (" ", "\u00a0")):
        if a in s:
            add("look-alike", s.replace(a, b, 1))
    # what a forgiving implementation might undo: each pair is tried in the direction that applies
    for kind, t in slips(rng, s):
        add(kind, t)
    return out


INSERTED = "\u200b\u200c\u200d\u2060\ufeff\u00ad\u034f\ufe0f\u200e\u200f\u202a\u202e\u2066\u180e\U000e0020\U000e0100\0"
SWAPS = (("\u201c", '"'), ("\u201d", '"'), ("\u2018", "'"), ("\u2019", "'"), ("\u2013", "-"), ("\u2014", "-"), ("\u2212", "-"), ("\u2026", "..."), ("\u00a0", " "), ("\u3000", " "), ("\t", " "), ("  ", " "),
         ("\r\n", "\n"), ("\r", "\n"), ("\u2028", "\n"), ("\u0131", "i"), ("\u0130", "I"), ("\u00df", "ss"), ("\u1e9e", "SS"), ("\u00e6", "ae"), ("\u00f8", "o"), ("\u0142", "l"), ("\u00e4", "ae"), ("\u00f6", "oe"), ("\u00fc", "ue"), ("\u0451", "\u0435"),
         ("\ufb01", "fi"), ("\u0661", "1"), ("\u0967", "1"), ("\uff11", "1"), ("\u00b2", "2"), ("0", "O"), ("1", "I"), ("5", "S"), ("\u03c2", "\u03c3"), ("\u017f", "s"), ("\u0410", "A"), ("\u0395", "E"), ("\u3042", "\u30a2"), ("\uff71", "\u30a2"),
         ("\u4e0e", "\u8207"), ("\u00b5", "\u03bc"), ("\u0110", "D"), ("\u06cc", "\u064a"), ("\u0643", "\u06a9"), ("\\n", "\n"), ("\\", "/"), (",", "."), (";", ":"), ("y", "z"), ("a", "@"), ("e", "3"))


def slips(rng, s):
    import base64
    import html
    import unicodedata as u
    import urllib.parse
    out = []
    i = rng.randrange(len(s) + 1)
    out.append(("insert invisible", s[:i] + rng.choice(INSERTED) + s[i:]))
    out.append(("insert space", s[:i] + " " + s[i:]))
    for a, b in SWAPS:
        if a in s:
            out.append(("slip", s.replace(a, b)))
        if b in s:
            out.append(("slip back", s.replace(b, a, 1)))
            out.append(("slip back everywhere", s.replace(b, a)))
    for kind, f in (("mojibake", lambda t: t.encode("utf-8").decode("latin-1")), ("mojibake cp1252", lambda t: t.encode("utf-8").decode("cp1252")), ("mojibake undone", lambda t: t.encode("latin-1").decode("utf-8")),
                    ("latin-1 misread", lambda t: t.encode("latin-1").decode("cp1251")), ("utf-16", lambda t: t.encode("utf-16-le").decode("latin-1")), ("utf-7", lambda t: t.encode("utf-7").decode("ascii")),
                    ("hex", lambda t: t.encode().hex()), ("unhex", lambda t: bytes.fromhex(t).decode("latin-1")), ("base64", lambda t: base64.b64encode(t.encode()).decode()), ("url", lambda t: urllib.parse.quote(t)),
                    ("unquoted", urllib.parse.unquote), ("plus", lambda t: t.replace(" ", "+")), ("html", html.escape), ("unescaped", html.unescape), ("backslashes", lambda t: t.encode("unicode_escape").decode()),
                    ("question marks", lambda t: t.encode("ascii", "replace").decode()), ("xml", lambda t: t.encode("ascii", "xmlcharrefreplace").decode()), ("replacement", lambda t: "".join(c if c < "\x7f" else "\ufffd" for c in t)),
                    ("no astral", lambda t: "".join(c for c in t if c < "\U00010000")), ("low byte", lambda t: "".join(chr(ord(c) & 255) for c in t)), ("low 16 bits", lambda t: "".join(chr(ord(c) & 0xFFFF) for c in t)),
                    ("7 bits", lambda t: "".join(chr(ord(c) & 127) for c in t)), ("next page", lambda t: "".join(chr(ord(c) + 256) if ord(c) < 256 else c for c in t)), ("next plane", lambda t: "".join(chr(ord(c) + 0x10000) if ord(c) < 256 else c for c in t)),
                    ("one on the next page", lambda t: t[:-1] + chr(ord(t[-1]) + 256)), ("one on the next plane", lambda t: t[:-1] + chr(ord(t[-1]) + 0x10000)),
                    ("one blank", lambda t: " ".join(t.split())), ("no blanks", lambda t: "".join(t.split())), ("no punctuation", lambda t: "".join(c for c in t if c.isalnum())), ("printable", lambda t: "".join(c for c in t if c.isprintable())),
                    ("no control characters", lambda t: "".join(c for c in t if u.category(c)[0] != "C")), ("no format characters", lambda t: "".join(c for c in t if u.category(c) != "Cf")),
                    ("title", str.title), ("capital", str.capitalize), ("first flipped", lambda t: t[0].swapcase() + t[1:]), ("last flipped", lambda t: t[:-1] + t[-1].swapcase()),
                    ("first flipped", lambda t: t[0].swapcase() + t[1:]), ("quoted", lambda t: '"' + t + '"'), ("unquoted", lambda t: t.strip("\"'")), ("newline", lambda t: t + "\n"), ("CRLF", lambda t: t + "\r\n"),
                    ("tab", lambda t: t + "\t"), ("BOM first", lambda t: "\ufeff" + t), ("nul first", lambda t: "\0" + t), ("rstrip", str.rstrip), ("lstrip", str.lstrip), ("chomp", lambda t: t.rstrip("\r\n")),
                    ("no zeros first", lambda t: t.lstrip("0")), ("int", lambda t: str(int(t))), ("zero first", lambda t: "0" + t), ("sorted", lambda t: "".join(sorted(t))), ("doubled letter", lambda t: t[:1] + t), ("NFKD", lambda t: u.normalize("NFKD", t)),
                    ("NFKC casefold", lambda t: u.normalize("NFKC", t).casefold()), ("before nul", lambda t: t.split("\0")[0]), ("first line", lambda t: t.splitlines()[0]), ("first word", lambda t: t.split()[0]), ("full width", lambda t: "".join(chr(ord(c) + 0xFEE0) if "!" <= c <= "~" else c for c in t)),
                    ("repr", ascii), ("b''", lambda t: repr(t.encode()))):
        try:
            out.append((kind, f(s)))
        except (ValueError, IndexError, OverflowError):
            pass
    return [(k, t) for k, t in out if t != s]


def respellings(rng, s):
    """Canonically equivalent spellings of s that are different code point sequences."""
    out = []
    nfc = unicodedata.normalize("NFC", s)

    def add(kind, t):
        if t != s and unicodedata.normalize("NFC", t) == nfc:
            out.append((kind, t))
    add("NFC", nfc)
    nfd = unicodedata.normalize("NFD", s)
    add("NFD", nfd)
    mixed = "".join(unicodedata.normalize(rng.choice(["NFC", "NFD"]), c) for c in s)
    add("mixed", mixed)
    # singletons
    table = {"\u00c5": "\u212b", "\u03a9": "\u2126", "K": "\u212a", ";": "\u037e", "\u00b7": "\u0387", "`": "\u1fef", "\u0301": "\u0341", "\u0300": "\u0340"}
    add("singletons", "".join(table.get(c, c) for c in nfc))
    # reorder marks of different combining class
    t = list(nfd)
    for _ in range(3):
        for i in range(len(t) - 1):
            x, y = unicodedata.combining(t[i]), unicodedata.combining(t[i + 1])
            if x and y and x != y and rng.random() < 0.7:
                t[i], t[i + 1] = t[i + 1], t[i]
    add("mark order", "".join(t))
    return out


# ------------------------------------------------------------------ coins and networks
def coin_net(rng, api):
    r = rng.random()
    if r < 0.25:
        return "Bitcoin", rng.choice(["mainnet", "mainnet", "testnet"])
    if r < 0.35:
        wide = [p for p in api.pairs if api.golden[p[0]][p[1]][1] > 255]
        return rng.choice(wide)
    if r < 0.5:
        multi = [p for p in api.pairs if len(api.golden[p[0]]) > 1]
        return rng.choice(multi)
    if r < 0.6:
        return user_coin(rng)
    return rng.choice(api.pairs)


def user_coin(rng):
    """A coin class a user defines: any prefix width, any network names."""
    nets = {}
    for n in rng.sample(["mainnet", "testnet", "regtest", "stagenet", "main-net 2", "n\u00e9t"], rng.randrange(1, 4)):
        w = rng.choice([rng.randrange(1, 256), rng.randrange(256), rng.randrange(256, 65536), rng.randrange(65536, 1 << 24)])
        a = rng.choice([rng.randrange(256), rng.randrange(256), 0, rng.randrange(256, 65536), rng.randrange(65536, 1 << 32)])
        w, a = number(rng, w, 0, 1 << 32), number(rng, a, 0, 1 << 32)
        if lex().strs and rng.random() < lex().rate(0.02, 0.2):
            n = rng.choice(lex().strs)
        nets[n] = [w, a]
    net = rng.choice(list(nets))
    return {"networks": nets}, net


def target(rng, api):
    """coin, network the operation is for, network of the instance, network named in the call (or None)"""
    coin, net = coin_net(rng, api)
    nets = list(coin["networks"]) if isinstance(coin, dict) else sorted(api.golden[coin])
    if rng.random() < 0.5:
        return dict(coin=coin, net=net, inst=net, arg=rng.choice([None, net]), fresh=rng.random() < 0.3)
    return dict(coin=coin, net=net, inst=rng.choice(nets), arg=net, fresh=rng.random() < 0.3)


def data_form(rng, b):
    """The same bytes the ways a caller may hand them over"""
    k = rng.randrange(4)
    return {"bytes": b.hex()} if k < 2 else ({"hex": b.hex()} if k == 2 else {"hex": b.hex().upper()})


def unform(d):
    return None if d is None else (bytes.fromhex(d["bytes"]) if "bytes" in d else d["hex"])


def raw(d):
    return None if d is None else bytes.fromhex(d.get("bytes") or d.get("hex"))
