"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusts the independent stdlib-only reference model (lib/ref.py, self-tested against published vectors by setup_cmd) and CPython; sampled, not exhaustive: says nothing about inputs not generated. ")
KDF = "Most executions run with a recording stand-in for scrypt that depends on every parameter; a share runs with the real scrypt. "
PY = "/opt/venv/bin/python run.py %s"

T = {
 "C01": ("runtime monitoring: model oracle on every encrypt result, random and leading-zero workloads", KDF + TRUST),
 "C02": ("runtime monitoring: encrypt/decrypt histories checked against the original key and the model", KDF + TRUST),
 "C03": ("runtime monitoring: model oracle on every intermediate code", KDF + TRUST),
 "C04": ("runtime monitoring: model oracle on every field of created keys", KDF + TRUST),
 "C05": ("runtime monitoring: three-step histories (intermediate, create, decrypt) checked end to end", KDF + TRUST),
 "C06": ("runtime monitoring: create/confirm/decrypt histories cross-checked, wrong passphrase and network included", KDF + TRUST),
 "C07": ("runtime monitoring: refusal oracle over near-miss passphrases and partially matching forged address hashes", KDF + TRUST),
 "C08": ("runtime monitoring: metamorphic oracle over canonically equivalent and differing Unicode spellings", KDF + TRUST),
 "C09": ("runtime monitoring: refusal oracle over damaged and forged strings, sweeps of every substitution, flag and prefix byte", KDF + TRUST +
         "The two reserved flag bits of EC-multiplied strings are left unspecified."),
 "C10": ("runtime monitoring: ordered pairs of coin networks, instance default versus named network, compared with the model", KDF + TRUST),
 "C11": ("runtime monitoring: model oracle and inverse law on the WIF functions", TRUST),
 "C12": ("runtime monitoring: model oracle, inverse law and canonicity on the Base58 codec", TRUST),
 "C13": ("runtime monitoring: model oracle and inverse law on P2PKH addresses", TRUST),
 "C14": ("runtime monitoring: differential oracle on hash helpers, with and without native RIPEMD-160", TRUST + "hashlib's SHA-256 is itself the reference for SHA-256."),
 "C15": ("runtime monitoring: group-law and codec oracle on keys and points", TRUST),
 "C16": ("runtime monitoring: inverse laws and model oracle on conversion helpers, with exhaustive small ranges", TRUST),
 "C17": ("runtime monitoring: histories, multi-threaded schedules with injected delays and line-level yields, forced preemption at every executed line, and fault injection at executed lines and KDF calls, judged by the model", KDF + TRUST +
         "Interleavings are sampled where CPython and the injected yields allow switches."),
 "C18": ("runtime monitoring: hooked OS random source, uniqueness across histories/threads/forks/processes, rank and bias tests, chosen and failing randomness", KDF +
         "Statistical oracles reject at |z|>7.5 (false alarm below 1e-10 per run); weaknesses below that resolution are not seen."),
 "C19": ("runtime monitoring: refusal oracle over out-of-domain parameters, model oracle on boundary values", KDF + TRUST),
 "C20": ("runtime monitoring: every published coin network exercised and compared with the published table and the model", KDF + TRUST +
         "All 180 networks are covered in every run. One known finding (Ripple alphabet), see known_findings.txt."),
 "C21": ("runtime monitoring: audit hook, descriptor, logging, warning and environment watch on every call; error texts searched for secrets",
         KDF + "Trusts Python's audit events; a C extension writing to a descriptor of its own making is not seen; leaks shorter than 10 characters are not seen."),
 "C22": ("runtime monitoring: self-consistency oracle on every reported dictionary and across operations", KDF + TRUST),
}
T["C24"] = ("runtime monitoring: operations run in fresh interpreters under 44 environments and calling contexts, every outcome compared with the model", KDF + TRUST +
            "Only the installed CPython and libc are exercised.")
T["C25"] = ("runtime monitoring: class, text and copies of every error observed under single-fault calls", KDF + TRUST)
T["C26"] = ("runtime monitoring: allocator, descriptor, thread and settings monitors over batches of calls, reachability search for secrets, counted key derivations, very long arguments", KDF + TRUST +
            "Memory outside Python's allocator and secrets in freed memory are not seen; memory growth below half a block per call is not seen.")
T["C27"] = ("runtime monitoring: every operation written in many equivalent ways (receivers, argument kinds and positions, coin classes), each outcome compared with the model, results serialised and spoiled", KDF + TRUST +
            "Parameter names, order and defaults are those of the pinned version's documentation.")
NA = {"C23": "Confidentiality against any observer and constant-time behaviour quantify over adversaries, not over executions: no run-time oracle can observe their violation "
             "(and pure-Python big-integer and AES code is not constant-time by construction)."}

checks = [dict(property=p, quick_cmd=PY % p, thorough_cmd="VERIF_TIER=thorough " + PY % p, evidence_file="evidence/%s.json" % p,
               technique=t, level="exploration", level_note=n.strip()) for p, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes="Pure-Python code: no compiled hooks are needed; instrumentation (scrypt entry points, OS random source, audit hook, sys.monitoring, settrace) is installed by the checks at run time. "
               "No hook commits in /repo, only fix: commits. See DESIGN.md and known_findings.txt.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
