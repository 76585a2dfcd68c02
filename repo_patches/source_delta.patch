From 0b15189e3e02d17859c6fba4642225419bb3c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 01/18] fix: give P2SH_Address a KIND so JSON classification of
 P2SH outputs does not fail

---
 bitcoinx/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/address.py b/bitcoinx/address.py
index 15f7d31..ad64703 100644
--- a/bitcoinx/address.py
+++ b/bitcoinx/address.py
@@ -127,6 +127,8 @@ class P2PKH_Address(Address):
 
 class P2SH_Address(Address):
 
+    KIND = 'scripthash'
+
     def __init__(self, hash160, coin):
         super().__init__(coin)
         self._hash160 = _validate_hash160(hash160)
-- 
2.43.0


From 4606b145d934904b2c0cc7447a718c29166e671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 02/18] fix: refuse BIP32 chain strings with a trailing newline

---
 bitcoinx/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index fbfbe58..f386330 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -44,7 +44,7 @@ from .packing import pack_be_uint32, unpack_be_uint32, pack_byte
 from .util import cachedproperty
 
 HARDENED = 1 << 31
-PART_REGEX = re.compile("([0-9]+)'?$")
+PART_REGEX = re.compile(r"([0-9]+)'?\Z")
 
 
 @attr.s(slots=True, frozen=True, repr=False)
-- 
2.43.0


From 8709d8a84d890addc48be5fe570d9c2c8727bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 03/18] fix: compact_signature_to_der refuses out-of-range r
 and s values

---
 bitcoinx/signature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index c1ee55b..a27477c 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -99,7 +99,8 @@ def compact_signature_to_der(compact_sig):
     if not (isinstance(compact_sig, bytes) and len(compact_sig) == 64):
         raise InvalidSignatureError('compact signature must be 64 bytes')
     cdata_sig = ffi.new('secp256k1_ecdsa_signature *')
-    lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig)
+    if not lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig):
+        raise InvalidSignatureError('invalid compact signature')
     return _cdata_signature_to_der(cdata_sig)
 
 
-- 
2.43.0


From 2e9713233037fdd02009fd23a9800465d1b0fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 04/18] fix: non-ASCII message signature text raises
 InvalidSignatureError

---
 bitcoinx/signature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index a27477c..ea4b351 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -31,7 +31,6 @@ __all__ = (
 )
 
 from base64 import b64decode
-from binascii import Error as binascii_Error
 
 from electrumsv_secp256k1 import ffi, lib
 
@@ -152,7 +151,7 @@ def to_recoverable_signature(message_sig):
     if isinstance(message_sig, str):
         try:
             message_sig = b64decode(message_sig, validate=True)
-        except binascii_Error:
+        except ValueError:   # binascii.Error, or ValueError if the string is not ASCII
             raise InvalidSignatureError('invalid base64 encoding of message signature') from None
     if not isinstance(message_sig, bytes) or len(message_sig) != 65:
         raise InvalidSignatureError('message signature must be 65 bytes')
-- 
2.43.0


From 82944355f1ade92b890ac96c73d29af7d4680590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 05/18] fix: non-ASCII encrypted message text raises
 DecryptionError

---
 bitcoinx/keys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 72e3025..2db1386 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -29,7 +29,6 @@ __all__ = ('PrivateKey', 'PublicKey', 'CURVE_ORDER', 'DecryptionError', )
 
 
 from base64 import b64decode, b64encode
-from binascii import Error as binascii_Error
 from os import urandom
 
 from electrumsv_secp256k1 import ffi, lib
@@ -297,7 +296,7 @@ class PrivateKey:
         if isinstance(message, str):
             try:
                 message = b64decode(message, validate=True)
-            except binascii_Error:
+            except ValueError:   # binascii.Error, or ValueError if the string is not ASCII
                 raise DecryptionError('invalid base64 encoding of encrypted message') from None
         mlen = len(magic)
         if len(message) < 81 + mlen:
-- 
2.43.0


From 317c0ed8176ce9f8cc2f3e56bf58bba78cf07295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 06/18] fix: cashaddr decoding refuses non-ASCII characters
 that lower to ASCII

---
 bitcoinx/cashaddr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index 0578353..f2cbfd6 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -110,6 +110,9 @@ def _decode_payload(addr):
 
     without the checksum.
     """
+    # Non-ASCII characters can have an ASCII lower case
+    if not addr.isascii():
+        raise ValueError('invalid characters in address: {}'.format(addr))
     lower = addr.lower()
     if lower != addr and addr.upper() != addr:
         raise ValueError('mixed case in address: {}'.format(addr))
-- 
2.43.0


From 541fdc86719a3142c6d1f6de2ab615a8c25a34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 07/18] fix: cashaddr decoding of a bare checksum raises
 ValueError

---
 bitcoinx/cashaddr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index f2cbfd6..682e82f 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -164,6 +164,9 @@ def decode(address):
 
     prefix, payload = _decode_payload(address)
 
+    if not payload:
+        raise ValueError('address payload is empty: {}'.format(address))
+
     # Ensure there isn't extra padding
     extrabits = len(payload) * 5 % 8
     if extrabits >= 5:
-- 
2.43.0


From 8c8f71c2890101388194711371547a4c262819a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 08/18] fix: ASM reads all-digit hex of 5 bytes or more as
 data, and only ASCII digits as numbers

---
 bitcoinx/script.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index e6cd276..cbd22d5 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -45,6 +45,10 @@ from .packing import (
 from .signature import Signature, InvalidSignatureError
 
 
+# What to_asm() can show for a push of at most 4 bytes
+ASM_DECIMAL_REGEX = re.compile('-?([0-9]{1,9}|[1-9][0-9]{9})')
+
+
 class ScriptError(Exception):
     pass
 
@@ -475,8 +479,9 @@ class Script:
             except KeyError:
                 raise ScriptError(f'unrecognized op code {word}') from None
             return pack_byte(opcode)
-        # Handle what looks like a decimal, provided it's in-range
-        if word.isdigit() or word[0] == '-' and word[1:].isdigit():
+        # Handle what looks like a decimal, provided it's in-range.  Longer words, and 10-digit
+        # ones with a leading zero, are pushes of 5 or more bytes whose hex has digits only.
+        if ASM_DECIMAL_REGEX.fullmatch(word):
             value = int(word)
             if abs(value) <= 2147483647:
                 return push_int(value)
-- 
2.43.0


From 38ac3290244986c1a2e55b4bf5fd5bed8ca08cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 09/18] fix: read word lists as UTF-8 whatever the locale

---
 bitcoinx/mnemonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index 8abdf9d..f4d2836 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -74,7 +74,7 @@ class Wordlists:
 
     @classmethod
     def _read_wordlist(cls, filename, expected_count):
-        with open(data_file_path(filename)) as f:
+        with open(data_file_path(filename), encoding='utf-8') as f:
             text = f.read()
         return cls._text_to_wordlist(text, expected_count)
 
-- 
2.43.0


From 7037aef326b050cdf59a4b8bec9da9f6b7c84f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 10/18] fix: store a header before counting it so a crash
 cannot leave the file unopenable

---
 bitcoinx/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2ce8768..38869de 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -238,9 +238,11 @@ class _HeaderStorage(object):
         if start >= len(mmap):
             mmap.close()
             mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
+        # The count is only updated once the header is in place so that a crash in between
+        # does not leave a counted header that is missing
+        self.mmap[start: start + 80] = raw_header
         if index >= len(self):
             self._set_count(index + 1)
-        self.mmap[start: start + 80] = raw_header
 
     def __getitem__(self, key):
         def header(index):
-- 
2.43.0


From ccea0755b1b84398fa457baf6fcb5a79e794f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 11/18] fix: re-create an empty headers file instead of failing
 to open it

---
 bitcoinx/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 38869de..f6c7dcd 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -32,6 +32,7 @@ import array
 from collections import namedtuple
 import logging
 import math
+from os import path
 from struct import Struct
 
 from bitcoinx.hashes import hash_to_hex_str
@@ -202,6 +203,9 @@ class _HeaderStorage(object):
     def _open_file(self, checkpoint):
         logger.debug(f'opening headers file {self.filename}')
         s = self.struct_reserved
+        # An empty file cannot be mapped
+        if path.getsize(self.filename) == 0:
+            raise _BadHeadersFile(f'empty headers file {self.filename}')
         self.mmap = map_file(self.filename)
         try:
             if len(self.mmap) >= s.size:
-- 
2.43.0


From ccb1483b59bb08aa33332b587a643a155b0bd7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 12/18] fix: read_varbytes raises struct.error for lengths too
 large to read

---
 bitcoinx/packing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/packing.py b/bitcoinx/packing.py
index cb624ec..baf4005 100644
--- a/bitcoinx/packing.py
+++ b/bitcoinx/packing.py
@@ -193,7 +193,10 @@ def read_varint(read):
 
 def read_varbytes(read):
     n = read_varint(read)
-    result = read(n)
+    try:
+        result = read(n)
+    except OverflowError:
+        result = b''
     if len(result) != n:
         raise struct_error(f'varbytes requires a buffer of {n:,d} bytes')
     return result
-- 
2.43.0


From 71e807f56fe31b5f1098f3ef6ff42e346b7d72f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 13/18] fix: only a transaction with exactly one input can be a
 coinbase

---
 bitcoinx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/tx.py b/bitcoinx/tx.py
index 98cccc7..a277e41 100644
--- a/bitcoinx/tx.py
+++ b/bitcoinx/tx.py
@@ -57,7 +57,7 @@ class Tx:
 
     def is_coinbase(self):
         '''Return True iff the tx is a coinbase transaction.'''
-        return self.inputs[0].is_coinbase()
+        return len(self.inputs) == 1 and self.inputs[0].is_coinbase()
 
     @classmethod
     def read(cls, read):
-- 
2.43.0


From 17dc640a9c66493fbcfd8f045ab3899c6d432fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 14/18] fix: comparing a Script or Signature with a class does
 not raise TypeError

---
 bitcoinx/script.py    | 2 +-
 bitcoinx/signature.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index cbd22d5..b4b2d37 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -358,7 +358,7 @@ class Script:
     def __eq__(self, other):
         '''A script equals anything buffer-like with the same bytes representation.'''
         return (isinstance(other, (bytes, bytearray, memoryview))
-                or hasattr(other, '__bytes__')) and self._script == bytes(other)
+                or hasattr(type(other), '__bytes__')) and self._script == bytes(other)
 
     def ops(self):
         '''A generator.  Yields script operations (does not check their validity) as integers, and
diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index ea4b351..35e3d0c 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -205,7 +205,7 @@ class Signature:
     def __eq__(self, other):
         '''A signature equals anything buffer-like with the same bytes representation.'''
         return (isinstance(other, (bytes, bytearray, memoryview))
-                or hasattr(other, '__bytes__')) and self._raw == bytes(other)
+                or hasattr(type(other), '__bytes__')) and self._raw == bytes(other)
 
     def __hash__(self):
         return hash(self._raw)
-- 
2.43.0


From 6b6bb9da51fd27a26a1b6c70bf013328597e6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 15/18] fix: look headers up by height without recursing
 through the parent chains

With about a thousand chains nested in one another, Headers.header_at_height() and
everything built on it failed with RecursionError at the heights of early chains.
---
 bitcoinx/chain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index f6c7dcd..5d1bb21 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -143,13 +143,15 @@ class Chain(object):
 
     def header_index(self, height):
         '''Return the index of the header in storage.'''
-        if height >= self.first_height:
+        # Not recursive, as there is no limit on how deeply forks nest
+        chain = self
+        while height < chain.first_height and chain.parent:
+            chain = chain.parent
+        if height >= chain.first_height:
             try:
-                return self._header_indices[height - self.first_height]
+                return chain._header_indices[height - chain.first_height]
             except IndexError:
                 pass
-        elif self.parent:
-            return self.parent.header_index(height)
         elif height >= 0:
             return height
         raise MissingHeader(f'no header at height {height}')
-- 
2.43.0


From c12e00d993b0649c4c422764e2d0fd67a41e438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 16/18] fix: allow more than 65,536 chains

The header creating the next chain was stored before OverflowError was raised, and the
file could not be opened again.
---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 5d1bb21..8be3c6d 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -320,7 +320,7 @@ class Headers(object):
         self._chains = []
         self._short_hashes = bytearray()
         self._heights = array.array('I')
-        self._chain_indices = array.array('H')
+        self._chain_indices = array.array('I')
         self._cache = {}
 
         # Create the base chain out to the checkpoint
-- 
2.43.0


From 7ec94883a881c865a94b8601bb3747121c702b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:00 +0000
Subject: [PATCH 17/18] fix: looking a hash up scans the headers once

A hash whose first four bytes straddle those of two neighbouring headers made the scan start
over for every byte before the match: minutes for a chain of a few hundred thousand headers, at
the choice of whoever sends a header to connect.
---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 8be3c6d..4185e4f 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -359,7 +359,7 @@ class Headers(object):
                     return raw_header, our_index
             if index == -1:
                 raise MissingHeader(f'no header with hash {hash_to_hex_str(header_hash)}')
-            start += 1
+            start = index + 1
 
     def _read_headers(self):
         '''Read in all the headers from storage.'''
-- 
2.43.0


From e9980f2f93616c01412b6eaf7c69f689bb18b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:50 +0000
Subject: [PATCH 18/18] fix: read_varbytes raises struct.error for lengths
 files cannot read

A file allocates a buffer of the length asked for, and so raised MemoryError for lengths of
about 2^40 and more.
---
 bitcoinx/packing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/packing.py b/bitcoinx/packing.py
index baf4005..cee9bf8 100644
--- a/bitcoinx/packing.py
+++ b/bitcoinx/packing.py
@@ -195,7 +195,7 @@ def read_varbytes(read):
     n = read_varint(read)
     try:
         result = read(n)
-    except OverflowError:
+    except (OverflowError, MemoryError):
         result = b''
     if len(result) != n:
         raise struct_error(f'varbytes requires a buffer of {n:,d} bytes')
-- 
2.43.0

