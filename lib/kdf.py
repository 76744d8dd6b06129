"""KDF instrumentation of the process under observation.

scrypt with the BIP38 parameters costs ~0.5 s; a monitor that has to see thousands of
executions cannot pay that for each.  `install()` - called before the code under test is
imported - puts a recording hook in front of every scrypt entry point in the process.
In mode 'real' the hook forwards to the real function (and records the call); in mode
'stub' it answers with ref.stub_kdf, which depends on every parameter, so a wrong
password, salt, cost or length still shows up in the result.
"""

import hashlib
import threading
import time

from . import ref

STATE = dict(mode="real", calls=0, delay=None, fault=None)
PARAMS = {}
_lock = threading.Lock()


class InjectedFault(MemoryError):
    pass


def _record(n, r, p):
    with _lock:
        STATE["calls"] += 1
        PARAMS[(n, r, p)] = PARAMS.get((n, r, p), 0) + 1
        fault = STATE["fault"]
        if fault is not None:
            STATE["fault"] = None if fault <= 1 else fault - 1
    if STATE["delay"]:
        STATE["delay"]()
    if fault is not None and fault <= 1:
        raise InjectedFault("injected: key derivation failed")


def _ensure(d):
    if isinstance(d, str):
        return d.encode("utf-8")
    if not isinstance(d, bytes):
        raise TypeError("Expected str or bytes, got %s" % type(d).__name__)
    return d


def install():
    import scrypt
    import scrypt.scrypt as inner
    real_hash = inner.hash
    real_hl = hashlib.scrypt

    def hash(password, salt, N=1 << 14, r=8, p=1, buflen=64):   # noqa: A001
        _record(N, r, p)
        if STATE["mode"] == "real":
            return real_hash(password, salt, N, r, p, buflen)
        return ref.stub_kdf(_ensure(password), _ensure(salt), N, r, p, buflen)

    def hl_scrypt(password, *, salt=None, n=None, r=None, p=None, maxmem=0, dklen=64):
        _record(n, r, p)
        if STATE["mode"] == "real":
            return real_hl(password, salt=salt, n=n, r=r, p=p, maxmem=maxmem, dklen=dklen)
        return ref.stub_kdf(bytes(password), bytes(salt), n, r, p, dklen)

    scrypt.hash = inner.hash = hash
    hashlib.scrypt = hl_scrypt


def mode(m):
    STATE["mode"] = m
    return ref.real_kdf if m == "real" else ref.stub_kdf
