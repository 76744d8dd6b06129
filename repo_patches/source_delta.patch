From 31995dfe63fcd8d4270599725fabf91730d139d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 01/11] fix: keep leading zero bytes of XOR-ed halves, seeds
 and private keys

integer_to_bytes() without a width drops leading zero bytes, so about one key
in a hundred could not be encrypted, generated, confirmed or decrypted.
---
 bip38/bip38.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index b24b245..eba0708 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -209,10 +209,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16])
+            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32])
+            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
         ))
 
         encrypted_private_key: bytes = (
@@ -316,10 +316,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_wif: str = ensure_string(check_encode((
             integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX) +
@@ -331,10 +331,10 @@ class BIP38:
             (bytes_to_integer(scrypt_hash[63:]) & 1) ^ bytes_to_integer(point_b[:1])
         )
         point_b_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1), 16
         ))
         point_b_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_point_b: bytes = (
             point_b_prefix + point_b_half_1 + point_b_half_2
@@ -425,10 +425,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         point_b_half_1: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16])
+            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16]), 16
         )
         point_b_half_2: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32])
+            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32]), 16
         )
         point_b_prefix: bytes = integer_to_bytes(
             bytes_to_integer(encrypted_point_b[:1]) ^ (bytes_to_integer(scrypt_hash[63:]) & 1)
@@ -541,7 +541,7 @@ class BIP38:
             decrypted_half_1: bytes = aes.decrypt(encrypted_half_1)
 
             private_key: bytes = integer_to_bytes(
-                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1)
+                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
             )
             if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
                 raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
@@ -597,7 +597,7 @@ class BIP38:
 
             aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
             encrypted_half_1_half_2_seed_b_last_3 = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32])
+                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32]), 16
             )
             encrypted_half_1_half_2: bytes = encrypted_half_1_half_2_seed_b_last_3[:8]
             encrypted_half_1: bytes = (
@@ -605,7 +605,7 @@ class BIP38:
             )
 
             seed_b: bytes = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16])
+                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16]), 16
             ) + encrypted_half_1_half_2_seed_b_last_3[8:]
 
             factor_b: bytes = double_sha256(seed_b)
@@ -614,7 +614,7 @@ class BIP38:
 
             # multiply private key
             private_key: bytes = integer_to_bytes(
-                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N
+                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N, 32
             )
             public_key: PublicKey = PrivateKey.from_bytes(private_key).public_key()
             wif_type: Literal["wif", "wif-compressed"] = "wif"
-- 
2.43.0


From d26ea0356dcf875b2392cbc34126dd73006c62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 02/11] fix: honour sequence number 0 (and refuse lot 0) in
 intermediate_code

Zero was treated as 'not given', so lot N with sequence 0 silently produced an
intermediate code without lot and sequence.
---
 bip38/bip38.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index eba0708..a10552b 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -124,10 +124,10 @@ class BIP38:
             raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
         if len(owner_salt) == 4 and (lot is None or sequence is None):
             raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=len(bytes_to_string(owner_salt)))
-        if (lot and sequence is None) or (lot is None and sequence):
+        if (lot is None) != (sequence is None):
             raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
 
-        if lot and sequence:
+        if lot is not None and sequence is not None:
             lot, sequence = int(lot), int(sequence)
             if not 100000 <= lot <= 999999:
                 raise Error("Invalid lot", expected="100000 <= lot <= 999999", got=lot)
-- 
2.43.0


From 5efd2b7e0679ca5eb32f381eec194b79d98c8787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 03/11] fix: refuse a seed that is not 24 bytes long

Any other length is cut or mangled in the encrypted WIF, which can then never
be decrypted.
---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index a10552b..aa4918e 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -261,6 +261,8 @@ class BIP38:
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
         seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
+        if len(seed_b) != 24:
+            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
         try:
             intermediate_decode: bytes = check_decode(intermediate_passphrase)
         except ValueError:
-- 
2.43.0


From 9775f2d30d7b2ff1bdf762274bca92179ed664d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 04/11] fix: refuse characters outside the alphabet in base58
 decoding

str.find() returned -1 for them, which was used as a digit value, so different
strings (also ones with a valid checksum) decoded to the same bytes.
---
 bip38/libs/base58.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bip38/libs/base58.py b/bip38/libs/base58.py
index dd0f95f..5968b2d 100644
--- a/bip38/libs/base58.py
+++ b/bip38/libs/base58.py
@@ -51,7 +51,10 @@ def decode(data, alphabet=__base58_alphabet):
     val = 0
     prefix = 0
     for c in data:
-        val = (val * len(alphabet)) + alphabet.encode("utf-8").find(c)
+        digit = alphabet.encode("utf-8").find(c)
+        if digit == -1:
+            raise ValueError("Invalid base58 character")
+        val = (val * len(alphabet)) + digit
         if val == 0:
             prefix += 1
 
-- 
2.43.0


From 46dcdf654bc9669e9d01cb5b6080a696a5e3dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 05/11] fix: verify the checksum and compression marker when
 decoding a WIF

A mistyped WIF was accepted as some other private key.
---
 bip38/wif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bip38/wif.py b/bip38/wif.py
index 83b8a06..952e1aa 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -85,9 +85,13 @@ def decode_wif(
     private_key: bytes = raw_without_prefix[:-1 * 4]
     wif_type: str = "wif"
 
+    if checksum != get_checksum(raw[:-1 * 4]):
+        raise WIFError("Invalid WIF checksum")
     if len(private_key) not in [33, 32]:
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
     elif len(private_key) == 33:
+        if not private_key.endswith(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)):
+            raise WIFError(f"Invalid Wallet Import Format (WIF)")
         private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
         wif_type = "wif-compressed"
 
-- 
2.43.0


From 830e49ef42401e5b65cf8151a7604dbae2c515e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 06/11] fix: verify the checksum of an encrypted WIF before
 decrypting it

---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index aa4918e..7830726 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -510,6 +510,8 @@ class BIP38:
         encrypted_wif_decode: bytes = decode(encrypted_wif)
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
+        if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
+            raise WIFError("Invalid encrypted WIF checksum")
 
         prefix: bytes = encrypted_wif_decode[:2]
         flag: bytes = encrypted_wif_decode[2:3]
-- 
2.43.0


From add0102c9355ab6f6884da2356e79703863e17f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 07/11] fix: refuse EC-multiplied keys and confirmation codes
 with undefined flag bits

The specification requires the bits outside FLAGS['ec'] to be zero; the list
existed but was never consulted, so such strings opened as ordinary ones.
---
 bip38/bip38.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 7830726..e9f7b7d 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -407,6 +407,9 @@ class BIP38:
         owner_entropy: bytes = confirmation_code_decode[10:18]
         encrypted_point_b: bytes = confirmation_code_decode[18:]
 
+        if bytes_to_integer(flag) not in FLAGS["ec"]:
+            raise Error("Invalid flag", expected=list(map(hex, FLAGS["ec"])), got=bytes_to_string(flag))
+
         lot_and_sequence: Optional[bytes] = None
         if bytes_to_integer(flag) in FLAGS["lot_and_sequence"]:
             owner_salt: bytes = owner_entropy[:4]
@@ -581,6 +584,9 @@ class BIP38:
             encrypted_half_1_half_1: bytes = encrypted_wif_decode[15:23]
             encrypted_half_2: bytes = encrypted_wif_decode[23:-4]
 
+            if bytes_to_integer(flag) not in FLAGS["ec"]:
+                raise Error("Invalid flag", expected=list(map(hex, FLAGS["ec"])), got=bytes_to_string(flag))
+
             lot_and_sequence: Optional[bytes] = None
             if bytes_to_integer(flag) in FLAGS["lot_and_sequence"]:
                 owner_salt: bytes = owner_entropy[:4]
-- 
2.43.0


From 719c56d4922087c8beff935c44af052945472d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 08/11] fix: report a WIF with foreign characters as WIFError

Since base58 decoding refuses such characters, decode_wif() and decrypt() would
otherwise let a bare ValueError through.
---
 bip38/bip38.py | 5 ++++-
 bip38/wif.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index e9f7b7d..a7bee1f 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -510,7 +510,10 @@ class BIP38:
         )
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
-        encrypted_wif_decode: bytes = decode(encrypted_wif)
+        try:
+            encrypted_wif_decode: bytes = decode(encrypted_wif)
+        except ValueError:
+            raise WIFError("Invalid encrypted WIF")
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
         if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
diff --git a/bip38/wif.py b/bip38/wif.py
index 952e1aa..f77fa2c 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -71,7 +71,10 @@ def decode_wif(
     :rtype: Tuple[bytes, str, bytes]
     """
 
-    raw: bytes = decode(wif)
+    try:
+        raw: bytes = decode(wif)
+    except ValueError:
+        raise WIFError(f"Invalid Wallet Import Format (WIF)")
     if not raw.startswith(integer_to_bytes(wif_prefix)):
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
 
-- 
2.43.0


From 496726b1d87f830cee3596457eb3c45e7c41e8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 09/11] fix: refuse points that are not on the curve

Point.from_bytes() accepted any 64 or 65 byte string as a point, and
from_coordinates() relied on an assertion, which python -O removes.
---
 bip38/secp256k1/point.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bip38/secp256k1/point.py b/bip38/secp256k1/point.py
index 1f69c71..3466797 100644
--- a/bip38/secp256k1/point.py
+++ b/bip38/secp256k1/point.py
@@ -44,11 +44,10 @@ class Point:
         """
 
         try:
-            return cls(
-                PointJacobi.from_bytes(
-                    curve_secp256k1, point
-                )
+            point_obj: PointJacobi = PointJacobi.from_bytes(
+                curve_secp256k1, point
             )
+            return cls.from_coordinates(point_obj.x(), point_obj.y())
         except keys.MalformedPointError as ex:
             raise Secp256k1Error("Invalid point key bytes") from ex
         except AttributeError:
@@ -71,6 +70,13 @@ class Point:
         :rtype: IPoint
         """
 
+        if not (
+            0 <= x < curve_secp256k1.p() and
+            0 <= y < curve_secp256k1.p() and
+            curve_secp256k1.contains_point(x, y)
+        ):
+            raise Secp256k1Error("Invalid point coordinates")
+
         return cls(
             PointJacobi.from_affine(
                 _Point(curve_secp256k1, x, y)
-- 
2.43.0


From 596fdefde2a35e2c9e257e95aadbb00aa4d3e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 10/11] fix: use the pure-Python RIPEMD-160 when hashlib lists
 its own but refuses it

---
 bip38/crypto.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/bip38/crypto.py b/bip38/crypto.py
index c95b801..12ccb07 100644
--- a/bip38/crypto.py
+++ b/bip38/crypto.py
@@ -13,6 +13,22 @@ from .const import CHECKSUM_BYTE_LENGTH
 from .utils import get_bytes
 
 
+def has_ripemd160() -> bool:
+    """
+    Check whether the platform really provides RIPEMD-160, OpenSSL may list
+    it in `hashlib.algorithms_available` and still refuse to create it.
+
+    :return: True if RIPEMD-160 can be created by hashlib, otherwise False.
+    :rtype: bool
+    """
+
+    try:
+        hashlib.new("ripemd160")
+    except ValueError:
+        return False
+    return True
+
+
 def ripemd160(data: Union[str, bytes]) -> bytes:
     """
     Calculate the RIPEMD-160 hash of the given data.
@@ -26,7 +42,7 @@ def ripemd160(data: Union[str, bytes]) -> bytes:
 
     return (
         hashlib.new("ripemd160", get_bytes(data)).digest()
-        if "ripemd160" in hashlib.algorithms_available else
+        if has_ripemd160() else
         r160(get_bytes(data))
     )
 
-- 
2.43.0


From 96cfa4eb008743cabc17ed3308e1ba0719dfe569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:42 +0000
Subject: [PATCH 11/11] fix: refusing a prefix must not fail with BytesWarning
 under python -b/-bb

---
 bip38/bip38.py         | 2 +-
 bip38/p2pkh_address.py | 2 +-
 bip38/wif.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index a7bee1f..0d1e96e 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -400,7 +400,7 @@ class BIP38:
         prefix_length: int = len(integer_to_bytes(CONFIRMATION_CODE_PREFIX))
         prefix_got: bytes = confirmation_code_decode[:prefix_length]
         if integer_to_bytes(CONFIRMATION_CODE_PREFIX) != prefix_got:
-            raise Error("Invalid confirmation code prefix", expected=prefix_length, got=prefix_got)
+            raise Error("Invalid confirmation code prefix", expected=prefix_length, got=bytes_to_string(prefix_got))
 
         flag: bytes = confirmation_code_decode[5:6]
         address_hash: bytes = confirmation_code_decode[6:10]
diff --git a/bip38/p2pkh_address.py b/bip38/p2pkh_address.py
index f2e9dc4..d5f5cb6 100644
--- a/bip38/p2pkh_address.py
+++ b/bip38/p2pkh_address.py
@@ -92,6 +92,6 @@ class P2PKHAddress:
 
         prefix_got: bytes = address_decode[:len(address_prefix)]
         if address_prefix != prefix_got:
-            raise AddressError(f"Invalid prefix (expected: {address_prefix}, got: {prefix_got})")
+            raise AddressError(f"Invalid prefix (expected: {address_prefix!r}, got: {prefix_got!r})")
 
         return bytes_to_string(address_decode[len(address_prefix):])
diff --git a/bip38/wif.py b/bip38/wif.py
index f77fa2c..4765469 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -81,7 +81,7 @@ def decode_wif(
     prefix_length: int = len(integer_to_bytes(wif_prefix))
     prefix_got: bytes = raw[:prefix_length]
     if integer_to_bytes(wif_prefix) != prefix_got:
-        raise WIFError("Invalid WIF prefix", expected=prefix_length, got=prefix_got)
+        raise WIFError("Invalid WIF prefix", expected=prefix_length, got=bytes_to_string(prefix_got))
 
     raw_without_prefix: bytes = raw[prefix_length:]
     checksum: bytes = raw_without_prefix[-1 * 4:]
-- 
2.43.0

