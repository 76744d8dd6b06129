"""Writes properties.jsonl (run by hand after editing the statements below)."""
import json, os

B, W, A, C, S, U, L, K = ("bip38/bip38.py", "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/crypto.py",
                          "bip38/secp256k1/", "bip38/utils.py", "bip38/libs/base58.py", "bip38/cryptocurrencies.py")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                          mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                          observe_at=list(observe), hook_needed=hook))
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop("C01", "Encrypting a WIF produces exactly the BIP38 standard string",
     "For every valid WIF key of a coin network (compressed or not) and every passphrase, encrypting it returns the "
     "Base58Check string that the BIP38 standard prescribes for that key, passphrase and P2PKH address, byte for byte, "
     "so that any other BIP38 implementation can open it. No valid key/passphrase pair is refused, and the same inputs "
     "always give the same string.",
     ["inputs", "configurations"], "all private keys in [1, n-1], both compression modes, all Unicode passphrases, all coin networks (instance default or per-call network)",
     "tests fix four (WIF, passphrase) pairs on Bitcoin; key- and passphrase-dependent paths (leading zero bytes in either XOR-ed half occur once per ~128 keys) are never sampled",
     [B, W, A, C, L], [("BIP38.encrypt: address hash, scrypt, XOR, AES, Base58Check", B), ("P2PKHAddress.encode", A)],
     observe=["return value of BIP38.encrypt", "calls into scrypt"])
prop("C02", "Decrypting a standard encrypted key returns the original key",
     "For every private key, compression mode, coin network and passphrase, decrypting the standard non-EC-multiplied BIP38 string "
     "of that key (whether made by this library or by another implementation) with the same passphrase returns exactly the "
     "original WIF, and the detailed result reports the original private key, WIF type, public key, key type and address with no "
     "seed, lot or sequence.",
     ["inputs", "configurations"], "all private keys, compression modes, Unicode passphrases, coin networks",
     "tests decrypt ten fixed strings; whether decryption loses or alters bytes depends on the key (leading zero bytes) and the coin",
     [B, W, A], [("BIP38.decrypt non-EC branch", B), ("private_key_to_wif", W)], observe=["return value of BIP38.decrypt"])
prop("C03", "Intermediate codes are the standard ones for passphrase, salt, lot, sequence",
     "For every passphrase, owner salt (4 or 8 bytes with lot and sequence, 8 bytes without; given as bytes or hex), lot in 100000-999999 and sequence in 0-4095, "
     "the intermediate code is exactly the one the BIP38 standard prescribes, carrying the owner salt, the lot and the sequence "
     "unchanged. A given lot and sequence are never dropped or altered, the boundary values included.",
     ["inputs"], "all passphrases, salts, all 900000 x 4096 lot/sequence pairs plus none",
     "tests use three fixed codes with sequence 1; boundary and zero values are not sampled",
     [B, S, U], [("BIP38.intermediate_code", B)], observe=["return value of BIP38.intermediate_code"])
prop("C04", "Generated EC-multiplied keys and confirmation codes are the standard ones",
     "For every valid intermediate code, 24-byte seed, WIF type and coin network, creating a new encrypted key returns the "
     "encrypted key, confirmation code, public key, address, seed and key type that the BIP38 standard prescribes, byte for byte. "
     "No valid intermediate code and seed are refused.",
     ["inputs", "configurations"], "all intermediate codes (with and without lot/sequence), seeds, WIF types, coin networks",
     "tests use two fixed intermediate codes with one seed on Bitcoin mainnet; byte patterns that break fixed-width handling occur about once per 50 inputs",
     [B, S, A], [("BIP38.create_new_encrypted_wif", B)], observe=["return value of BIP38.create_new_encrypted_wif"])
prop("C05", "The owner's passphrase opens every EC-multiplied key made for them",
     "For every passphrase, owner salt, optional lot/sequence, seed, WIF type and network: whatever encrypted key is created "
     "from the intermediate code, decrypting it with the passphrase returns the private key that controls exactly the address and public key "
     "reported at creation. The detailed result returns the same seed, and the lot and sequence that were put into the intermediate code (none if none).",
     ["inputs", "configurations", "histories"], "all passphrases, salts, lots, sequences, seeds, WIF types, networks; codes made by this library or by other implementations",
     "tests decrypt six fixed EC-multiplied strings; a lost leading zero in seed or key makes other keys permanently unopenable",
     [B, S, W], [("BIP38.decrypt EC branch", B), ("BIP38.create_new_encrypted_wif", B), ("BIP38.intermediate_code", B)],
     observe=["history intermediate_code -> create_new_encrypted_wif -> decrypt"])
prop("C06", "A confirmation code confirms exactly the address its generator reported",
     "For every key generated from an intermediate code, confirming its confirmation code with the owner's passphrase on the same "
     "network succeeds and reports the same address, public key, key type, lot and sequence as creation and decryption report. "
     "With any other passphrase, or on a network with a different address prefix, it raises an incorrect-passphrase error and reports no address.",
     ["inputs", "configurations", "histories"], "all passphrases, salts, lots, sequences, seeds, WIF types, networks",
     "tests confirm two fixed codes and one wrong passphrase",
     [B, S], [("BIP38.confirm_code", B)], observe=["history create_new_encrypted_wif -> confirm_code / decrypt"])
prop("C07", "A wrong passphrase never yields a key or an address",
     "Decrypting any valid encrypted key, or confirming any valid confirmation code, with a passphrase different from the one "
     "used to make it raises the incorrect-passphrase error and returns nothing. This holds however similar the two passphrases are "
     "(case, whitespace, one code point, prefix, extension, look-alike characters). "
     "An encrypted key or confirmation code whose recovered address does not hash to all four bytes it carries is refused the same way.",
     ["inputs"], "all encrypted keys and confirmation codes, all pairs of passphrases that differ after Unicode NFC normalisation (trailing NUL characters aside, which scrypt itself ignores)",
     "tests try one wrong passphrase on two confirmation codes and none on decryption",
     [B], [("address-hash comparison in BIP38.decrypt and BIP38.confirm_code", B)], observe=["exception raised / value returned by decrypt and confirm_code"])
prop("C08", "Passphrases are compared as NFC-normalised Unicode text, in full",
     "Two spellings of a passphrase that are canonically equivalent in Unicode give the same intermediate codes and encrypted strings and open each other's "
     "encrypted keys and confirmation codes in every operation. Every other difference matters: characters anywhere in "
     "the passphrase, of any script and any length, compatibility variants, case, spaces and embedded NULs all influence the result.",
     ["inputs"], "all Unicode passphrases (any length, astral planes, combining sequences, Hangul, singletons) and all canonically equivalent respellings",
     "tests use four ASCII passphrases and one Greek one; no composed/decomposed pair is ever compared",
     [B], [("unicodedata.normalize('NFC', passphrase) at each KDF call", B)], observe=["return values of intermediate_code, encrypt, decrypt, confirm_code for respelled passphrases"])
prop("C09", "Damaged or forged strings are refused, never opened as something else",
     "Any WIF, encrypted key, intermediate code, confirmation code or address that differs from a valid one by mistyped, missing, extra, "
     "swapped, case-changed or non-Base58 characters, or whose checksum, length, prefix, magic or flag byte is not one the format defines, is "
     "refused with a library error or ValueError. No operation returns a result for it.",
     ["inputs"], "all single and multiple character edits of valid strings, all re-checksummed payloads with wrong length/prefix/magic/undefined flag bits, arbitrary text",
     "tests try three fixed fake strings",
     [B, W, L, A], [("Base58Check checksum verification", L), ("decode_wif", W), ("prefix/flag/length checks", B)],
     observe=["exception raised / value returned by every string-accepting operation"])
prop("C10", "Coins and networks are never confused",
     "Every operation uses the WIF and address prefixes of the network named in the call, or the instance's network if none is named, for the whole result. "
     "A WIF of a network with another WIF prefix is refused by encryption, an encrypted key or confirmation code opened on a network whose address prefix differs "
     "is refused as an incorrect passphrase, and unknown network names or classes that are not coins are refused with the network or cryptocurrency error.",
     ["inputs", "configurations"], "all ordered pairs of (coin, network), instance default versus per-call network, user-defined coin classes with any prefix width",
     "tests only use Bitcoin and, for most operations, one network",
     [B, W, K], [("network resolution at the start of each BIP38 method", B), ("prefix comparison in decode_wif", W)],
     observe=["returned WIFs and addresses, exceptions"])
prop("C11", "WIF encoding and decoding are exact inverses on every network",
     "For every 32-byte private key, WIF type and network prefix, encoding yields the standard WIF string, and decoding it returns the same key, type and checksum. "
     "Key, type and checksum accessors agree with each other, keys given as bytes or hex behave alike, and keys of any other length are refused.",
     ["inputs", "configurations"], "all private keys (leading/trailing zero bytes, trailing 0x01), both types, all prefixes of one or more bytes",
     "tests encode one key for three Bitcoin networks",
     [W, L, U], [("encode_wif / decode_wif", W)], observe=["return values of the WIF functions"])
prop("C12", "Base58 and Base58Check are lossless and canonical",
     "For every byte string (leading zero bytes and the empty string included) and every 58-character alphabet, encoding yields the standard Base58(Check) text and "
     "decoding it returns the same bytes. Decoding accepts only strings over the alphabet, and Base58Check decoding only those whose checksum matches; "
     "anything else raises ValueError, so no two texts decode to the same bytes.",
     ["inputs"], "all byte strings and all texts, standard and Ripple alphabets",
     "tests only reach the codec through fixed keys", [L], [("encode/decode/check_encode/check_decode", L)], observe=["return values and exceptions of the codec"])
prop("C13", "P2PKH addresses are standard and decode to the same public key hash",
     "For every public key (bytes, hex or object; compressed or uncompressed form), address prefix of any width and alphabet, the encoded address is the "
     "standard P2PKH address of exactly that form, and decoding it with the same prefix and alphabet returns the HASH160 of that form; a prefix or alphabet that is not given is that of the class (a subclass may have its own). Decoding with another prefix, another alphabet "
     "or a damaged address is refused.",
     ["inputs", "configurations"], "all public keys, forms, prefixes of all registered networks and others, alphabets",
     "tests encode one key with the Bitcoin prefix", [A, C, L], [("P2PKHAddress.encode / decode", A)], observe=["return values and exceptions of encode/decode"])
prop("C14", "Hash functions equal the published standards for every input",
     "For every byte string of any length, SHA-256, double SHA-256, RIPEMD-160, HASH160 and the 4-byte checksum equal the published functions, whether the "
     "data is given as bytes or as a hex string. RIPEMD-160 gives the same digest whether or not the platform's own implementation is available.",
     ["inputs", "configurations"], "all lengths (every padding and block boundary), all contents, platforms with and without native RIPEMD-160",
     "tests hash one 8-byte value, and nine messages with the fallback", [C, "bip38/libs/ripemd160.py"], [("crypto helpers", C), ("pure Python RIPEMD-160", "bip38/libs/ripemd160.py")],
     observe=["return values of the hash helpers"])
prop("C15", "Keys and points follow secp256k1 and nothing off the curve is accepted",
     "Private keys in [1, n-1] map to the secp256k1 public key of that scalar, encodings round-trip in every supported form, and point addition and scalar "
     "multiplication (non-zero scalars, negative ones and ones beyond n included, either operand order, doubling and identity cases) give the group law's results. Scalars outside [1, n-1], "
     "wrong lengths, malformed encodings and coordinates off the curve are refused.",
     ["inputs"], "all scalars and curve points, all byte strings offered as keys or points",
     "tests use one key and one point", [S], [("PrivateKey / PublicKey / Point wrappers", S)], observe=["coordinates and encodings returned, exceptions"])
prop("C16", "Byte, integer and hex conversions are lossless",
     "For every integer, width, byte order and signedness that fits, converting to bytes and back returns the integer, with the minimal length when no width is given "
     "and exactly the requested length otherwise; integers that do not fit are refused. Bytes convert to lower-case hex and back without loss, byte reversal reverses, "
     "and text is taken as hex or UTF-8 as requested, invalid hex being refused.",
     ["inputs"], "all integers, widths, byte orders, signedness, byte strings and texts",
     "tests check only the returned types on random bytes", [U], [("conversion helpers", U)], observe=["return values of the helpers"])
prop("C17", "Results depend on the arguments only: no history, thread or fault effects",
     "Every operation's outcome is the same whatever operations ran before it on the same or another instance, whatever runs concurrently in other threads "
     "(also on one shared instance with different networks, and at whatever point another operation is stopped), and whether earlier or concurrent operations failed or were interrupted at any point. "
     "Operations change neither the instance's configuration nor the coin tables.",
     ["histories", "schedules", "fault_sequences"], "all sequences and interleavings of operations on shared instances, all interruption points",
     "tests run each operation once, sequentially, on a fresh instance",
     [B, W, A, C], [("methods keep all working data in locals", B)],
     state=[("network, cryptocurrency", "instance configuration", B), ("NETWORKS", "coin tables", K)],
     observe=["per-thread call/return histories", "line events of the running code"])
prop("C18", "Default salts and seeds are fresh, full-size and unpredictable",
     "When no owner salt or seed is given, every call draws a new one of full size (8 bytes, of which 4 with lot and sequence; 24-byte seed) from the operating "
     "system's randomness: values never repeat across calls, threads, forks or processes, do not depend on the random module's seed or on the arguments, and show no bias or linear dependence. "
     "A salt or seed that is given is used exactly and no random value replaces it.",
     ["histories", "inputs", "schedules"], "all call histories, across threads, forked children and fresh processes",
     "tests always pass explicit salts and seeds", [B], [("os.urandom defaults", B)], observe=["salt/seed embedded in returned values", "draws from the OS random source"])
prop("C19", "Invalid parameters are refused before any result is produced",
     "Lots outside 100000-999999, sequences outside 0-4095, only one of lot and sequence, owner salts that are not 4 or 8 bytes (or 4 without lot), seeds that "
     "are not 24 bytes, non-hex text where hex is expected, unknown WIF types, private keys of zero or at least n, and intermediate codes with an invalid point are refused with a "
     "library error or ValueError. No code, key or address is returned for them.",
     ["inputs"], "all out-of-domain parameter values, alone and combined with valid ones",
     "tests check four exception cases, none about lot, sequence, salt, seed or key range", [B, W, S], [("argument checks in intermediate_code, create_new_encrypted_wif, encrypt", B)],
     observe=["exceptions and return values"])
prop("C20", "Every supported coin network uses its published parameters",
     "All coins and networks in the published table of supported cryptocurrencies are available with exactly the published WIF and address prefixes, and keys and addresses "
     "produced for a coin network carry those prefixes and that coin's address alphabet. Each of them can encrypt, generate, confirm and decrypt keys.",
     ["configurations"], "all 155 coins and 180 coin networks of the published table",
     "tests exercise Bitcoin only", [K, B, "README.md"], [("coin classes", K)], observe=["WIFs and addresses produced per coin network"])
prop("C21", "Operations keep secrets to themselves: no I/O and no leaks in errors",
     "No operation, successful or failing, prints, logs, warns, opens files for writing, uses the network, starts processes or changes environment variables. "
     "No error they raise contains the passphrase, a private key or a WIF in its message.",
     ["inputs", "fault_sequences"], "all operations with valid, wrong and malformed arguments",
     "tests never watch side effects or error texts", [B, W, A, U, "bip38/exceptions.py"], [("pure computation, error texts built from lengths and types", B)],
     observe=["audit events, stdout/stderr, logging, warnings, exception texts during each call"])
prop("C22", "Every reported result is internally consistent",
     "In every result, for any input that yields one, the public key is that of the private key, the address is that of the public key, key type and WIF type agree with both, "
     "and the WIF encodes the private key for the network used. The plain result equals the WIF (or address) of the detailed one, and creation, confirmation and decryption of one key agree on all fields they share.",
     ["inputs", "configurations", "histories"], "all results of decrypt, confirm_code and create_new_encrypted_wif",
     "tests compare fixed dictionaries for a dozen inputs", [B, W, A, S], [("result dictionaries of the BIP38 methods", B)], observe=["returned dictionaries and strings"])
prop("C23", "Encrypted strings reveal nothing about the key without the passphrase",
     "Without the passphrase, an encrypted key, intermediate code or confirmation code gives no usable information about the private key, beyond what the standard allows, and "
     "execution time does not depend on secret values.",
     ["inputs"], "all keys and passphrases, all computationally bounded observers",
     "confidentiality quantifies over adversaries; tests only compare outputs", [B, S], [("scrypt, AES-256 and secp256k1 from third-party libraries", B)])

prop("C24", "The same results in every process environment and calling context",
     "Every operation gives the same outcome whatever the process it runs in is like: locale and encoding settings, interpreter options (optimisation, isolation, development mode), environment "
     "variables, arguments, hash seed, clock, time zone, working directory, standard streams, limits, garbage collection, order of imports; and whatever it is called from (main thread, other thread, executor, event loop, "
     "generator, except block, signal handler, trace, forked child, exit handler).",
     ["configurations", "schedules"], "all process environments and calling contexts", "tests run in one interpreter started one way",
     [B, W, A, C, U, L, "bip38/__init__.py"], [("pure functions of their arguments; explicit encodings", B), ("text to bytes", U)],
     observe=["outcomes of operations in fresh interpreters"])
prop("C25", "An error tells what is wrong: passphrase, string, network or parameter",
     "When exactly one thing is wrong, the error raised is the one for it: a passphrase (or network) that does not fit a well-formed string always gives PassphraseError, and a damaged encrypted key or confirmation "
     "code never does; damaged WIFs and encrypted keys, and unknown WIF types, give WIFError, unknown networks NetworkError, classes that are not coins CryptocurrencyError, bad key and point bytes Secp256k1Error, bad "
     "addresses AddressError (ValueError if they do not decode), other parameters a library error that is none of these. All derive from Error, none from another, and every error can be printed, pickled and copied unchanged.",
     ["inputs", "configurations"], "all operations with exactly one thing wrong, for every damage, passphrase, network name and parameter value",
     "tests provoke four errors, with fixed inputs", [B, W, A, S, "bip38/exceptions.py"], [("raise statements of the BIP38 methods", B), ("class hierarchy and texts", "bip38/exceptions.py")],
     observe=["exceptions raised by every operation"])
prop("C26", "Every call ends, does bounded work and leaves nothing behind",
     "Every operation ends on every input, however long, malformed or nearly right: no unbounded recursion or repetition, no running time out of proportion to its input, and no more key derivations than the standard's "
     "steps need. After it has returned or failed nothing of it remains: memory does not grow with the number of calls, no thread, descriptor or handler stays, and nothing in the package or the instance still refers "
     "to the passphrase, a private key or a WIF. Process-wide settings (the random module's state, recursion limit, locale, decimal context, signal handlers, hooks, working directory) are as they were.",
     ["inputs", "histories"], "all operations, arguments of any length, all sequences of calls", "tests make a dozen calls on short arguments and look at results only",
     [B, W, A, C, U, L, S], [("methods keep all working data in locals", B), ("iterative codecs", L)],
     observe=["allocator, descriptor and thread counts, process settings, objects reachable from the package, key derivations and CPU time per call"])
prop("C27", "However a call is written, it means the same",
     "Every documented way of writing a call gives the same outcome: arguments by position, by their documented names, or left to their documented defaults; text, numbers and bytes as any equal object of the documented "
     "type (fresh, interned, of a subclass, enum members); salts, seeds and keys as bytes or as hex of either case, public keys also as objects; on a new, used, copied, pickled or subclassed instance or, where it is a class "
     "method, the class; through stored methods and partials; with a coin of the package, a subclass of it or an own class with equal tables. Results are plain values that belong to the caller: they serialise "
     "unchanged, and changing them changes no later result.",
     ["inputs", "configurations", "histories"], "all operations, for every combination of ways to write the call and every argument",
     "tests write each call in one way, with keyword arguments and literals", [B, W, A, C, U, L, S, "bip38/cryptocurrencies.py"],
     [("signatures and defaults", B), ("isinstance checks on arguments", U), ("instances hold only the coin class, network and alphabet", B)],
     observe=["outcomes of equal calls written differently", "values returned, after serialising and after the caller changed them"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
