"""A dictionary for the generators: the constants that occur in the code under test (compiled, so folded),
those first that do not occur in the pinned version. It steers inputs towards values the code treats
specially; no oracle looks at it."""
import json
import os
import random
import re
import types
import unicodedata

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(os.path.dirname(HERE), "data", "lexicon.json")
_CACHE = {}


def _consts(code, out):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _consts(c, out)
        else:
            _flat(c, out)


def _flat(c, out):
    if isinstance(c, (tuple, frozenset)):
        for x in c:
            _flat(x, out)
    elif isinstance(c, bool) or c is None or c is Ellipsis:
        pass
    elif isinstance(c, float):
        if abs(c) < 1e15:
            out.add(("i", int(c)))
    elif isinstance(c, int):
        if c.bit_length() < 4200:
            out.add(("i", c))
    elif isinstance(c, str) and len(c) <= 200:
        out.add(("s", c))
    elif isinstance(c, bytes) and len(c) <= 200:
        out.add(("b", c.hex()))


def harvest(repo):
    out = set()
    for d, _, names in sorted(os.walk(os.path.join(repo, "bip38"))):
        for n in sorted(names):
            if n.endswith(".py"):
                try:
                    with open(os.path.join(d, n), encoding="utf-8") as f:
                        _consts(compile(f.read(), n, "exec", dont_inherit=True), out)
                except (SyntaxError, ValueError, OSError):
                    pass
    return out


class Lexicon:
    def __init__(self, repo):
        found = harvest(repo)
        with open(BASE) as f:
            base = {tuple(x) for x in json.load(f)}
        self.new = bool(found - base)
        found = (found - base) or found
        self.ints = sorted(v for k, v in found if k == "i")
        self.strs = sorted(v for k, v in found if k == "s" and v)
        self.bytes = sorted(v for k, v in found if k == "b" and v)
        self.bytes += sorted(v for v in self.strs if len(v) % 2 == 0 and re.fullmatch("[0-9a-fA-F]+", v))
        self.ranges = []
        for s in self.strs:
            if "[" in s or "\\" in s:
                self.ranges += _classes(s)
        self.cats = [s for s in self.strs if re.fullmatch("[LMNPSZC][a-z&o]?", s)]

    def rate(self, low, high):
        return high if self.new else low

    def int(self, rng, lo=None, hi=None):
        """a constant, or its neighbour, within [lo, hi] (None if there is none)"""
        for _ in range(4):
            if not self.ints:
                return None
            v = rng.choice(self.ints)
            r = rng.random()
            v = v + rng.choice([0, 0, 1, -1]) if r < 0.7 else v * rng.choice([2, 8, 256]) if r < 0.8 else v // rng.choice([2, 8]) if r < 0.9 else -v
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        return None

    def data(self, rng, n, b):
        """bytes b (of length n) with a constant worked in"""
        b = bytearray(b)
        if self.bytes and rng.random() < 0.4 or not self.ints:
            if not self.bytes:
                return bytes(b)
            x = bytes.fromhex(rng.choice(self.bytes))[:n]
        elif rng.random() < 0.3 and self.strs:
            x = rng.choice(self.strs).encode("utf-8", "replace")[:n]
        else:
            v = abs(self.int(rng) or 0)
            k = max(1, (v.bit_length() + 7) // 8)
            r = rng.random()
            if r < 0.5 and v < 256:
                x = bytes([v])
            elif r < 0.6:
                x = bytes([v & 255])
            elif r < 0.8:
                x = v.to_bytes(k, "big")[-n:]
            elif r < 0.9:
                x = v.to_bytes(k, "little")[:n]
            else:
                return (v % (1 << (8 * n))).to_bytes(n, "big")
        at = rng.choice([0, n - len(x), rng.randrange(n - len(x) + 1)])
        b[at:at + len(x)] = x
        if rng.random() < 0.15:
            i = rng.randrange(n)
            b[i] = x[0]
        return bytes(b[:n])

    def text(self, rng, filler):
        """a passphrase with a constant in it, or as long as one says"""
        r = rng.random()
        s = None
        if r < 0.35 and self.strs:
            s = rng.choice(self.strs)
            r = rng.random()
            if r < 0.2:
                s = rng.choice([s.upper(), s.lower(), s.swapcase(), s.strip(), unicodedata.normalize("NFD", s), unicodedata.normalize("NFC", s)])
            elif r < 0.3 and len(s) > 1:
                s = s[:rng.randrange(1, len(s))]
        elif r < 0.45 and self.bytes:
            s = bytes.fromhex(rng.choice(self.bytes)).decode("utf-8", "ignore" if rng.random() < 0.5 else "backslashreplace")
        elif r < 0.6 and self.ranges:
            lo, hi = rng.choice(self.ranges)
            s = chr(rng.choice([lo, hi, rng.randint(lo, hi)]))
        elif r < 0.68 and self.cats:
            s = "".join(_category(rng.choice(self.cats), rng) for _ in range(2))
        if s is None:
            v = self.int(rng, 0)
            if v is None:
                s = filler
            elif rng.random() < 0.45 and v < 5000:
                unit = rng.choice(["x", "ab", "\u00e9", "e\u0301", "\U0001f600", filler or "q", "a ", "\u30ac"])
                s = (unit * (v // len(unit) + 1))
                if rng.random() < 0.3:
                    e = s.encode()[:v]
                    s = e.decode("utf-8", "ignore")
                else:
                    s = s[:v]
                if rng.random() < 0.3 and s:
                    i = rng.randrange(len(s))
                    s = s[:i] + rng.choice("Z\u00e9\u4e00") + s[i + 1:]
                return _clean(s)
            elif v < 0x110000 and rng.random() < 0.7:
                w = self.int(rng, 0, 0x10FFFF)
                s = chr(rng.randint(min(v, w or v), max(v, w or v)) if rng.random() < 0.5 else v)
            else:
                s = str(v) if rng.random() < 0.5 else "%x" % v
        k = rng.randrange(6)
        s = [s, s + filler, filler + s, filler[:2] + s + filler[2:], s * 2, s + " " + s[::-1]][k]
        return _clean(s)


def _clean(s):
    return "".join(c for c in s if not 0xD800 <= ord(c) < 0xE000)


def _classes(pattern):
    try:
        from re import _parser
        tree = _parser.parse(pattern)
    except Exception:
        return []
    out = []

    def walk(t):
        for op, arg in t:
            name = str(op)
            if name == "RANGE":
                out.append((arg[0], arg[1]))
            elif name in ("LITERAL", "NOT_LITERAL"):
                out.append((arg, arg))
            elif name == "IN":
                walk(arg)
            elif name == "BRANCH":
                for x in arg[1]:
                    walk(x)
            elif name in ("MAX_REPEAT", "MIN_REPEAT"):
                walk(arg[2])
            elif name == "SUBPATTERN":
                walk(arg[-1])
    try:
        walk(tree)
    except Exception:
        pass
    return out


def _category(cat, rng):
    for _ in range(400):
        c = chr(rng.choice([rng.randrange(0x20, 0x3000), rng.randrange(0x20, 0x20000)]))
        if unicodedata.category(c).startswith(cat[:1] if len(cat) == 1 or cat[1] == "&" else cat) and not 0xD800 <= ord(c) < 0xE000:
            return c
    return "x"


def get(repo=None):
    if repo is None:
        from .fw import REPO as repo
    if repo not in _CACHE:
        _CACHE[repo] = Lexicon(repo)
    return _CACHE[repo]


if __name__ == "__main__":
    import sys
    with open(BASE, "w") as f:
        json.dump(sorted(harvest(sys.argv[1]), key=repr), f, separators=(",", ":"))
    lx = Lexicon(sys.argv[1])
    print(len(lx.ints), len(lx.strs), len(lx.bytes), lx.new)
    print([lx.text(random.Random(i), "abc")[:30] for i in range(20)])
