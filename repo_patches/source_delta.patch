From 56f18f20a66e445e3f86504f6451674600249ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 01/47] fix: keep leading zero digits when decoding
 variable-size OCTET STRING

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0024a67..436350a 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -290,7 +290,7 @@ def decode_octetstring(octetstring, per_bytes):
                 logger.info("%s: decoding finished.", octetstring.__class__.__name__)
                 return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0), octet_align=True)
-            octetstring_val = hex(octetstring_val)[2:].rstrip("L")
+            octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
             logger.info("%s: decoding finished.", octetstring.__class__.__name__)
             return octetstring.__class__(octetstring.__class__.fromHexString(octetstring_val))
-- 
2.43.0


From ff4d8f99f2a618d5f1acaeb59ab1f2a3c500d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 02/47] fix: decode an empty unconstrained OCTET STRING as
 empty, not as one zero octet

---
 asn1PERser/codec/per/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 436350a..e0d0e7f 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -301,6 +301,10 @@ def decode_octetstring(octetstring, per_bytes):
                                                                        n=per_bytes,
                                                                        lowerBound=0,
                                                                        upperBound=None)
+            if octetstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", octetstring.__class__.__name__)
+                logger.info("%s: decoding finished.", octetstring.__class__.__name__)
+                return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0))
             octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
-- 
2.43.0


From 2be28c79b193806eb8ab97999cca60c12ae92201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:11 +0000
Subject: [PATCH 03/47] fix: decode a whole number constrained to one value as
 that value, not 0

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index e0d0e7f..a98e808 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -637,7 +637,7 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     field_size = get_bit_field_size(range)
     logger.debug("constrained whole number: range: %s; size: %s", range, field_size)
     if range == 1:
-        return 0
+        return lowerBound
     elif range <= 255:
         non_negative_binary_integer = decode_non_negative_binary_integer(per_bytes, field_size, octet_align=False)
     elif range == 256:
-- 
2.43.0


From 862b38144b5a587e7f90829faa9f9f03792a0336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:56 +0000
Subject: [PATCH 04/47] fix: no padding before (and no phantom bit in)
 zero-length variable-size strings

---
 asn1PERser/codec/per/decoder.py | 8 ++++++++
 asn1PERser/codec/per/encoder.py | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index a98e808..ae017e4 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -209,6 +209,10 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=bitstring.subtypeSpec.lowerEndpoint,
                                                                      upperBound=bitstring.subtypeSpec.upperEndpoint)
+            if bitstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", bitstring.__class__.__name__)
+                logger.info("%s: decoding finished.", bitstring.__class__.__name__)
+                return bitstring.__class__('')
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
@@ -222,6 +226,10 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
+            if bitstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", bitstring.__class__.__name__)
+                logger.info("%s: decoding finished.", bitstring.__class__.__name__)
+                return bitstring.__class__('')
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 7159457..4213d30 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -40,7 +40,7 @@ def encode(asn1Spec):
 def _produce_complete_encoding(field_list):    # 11.1
     complete_encoding = ''
     for field in field_list:
-        if field.octet_align:
+        if field.octet_align and field.value:    # an empty field is not aligned (11.9.3.3: no further fields if n = 0)
             if len(complete_encoding) % 8 != 0:
                 complete_encoding += ''.zfill(abs(len(complete_encoding) % 8 - 8))
             complete_encoding += field.value
-- 
2.43.0


From 61bdb13f54100ebd7543e5369c2fa17e7726eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 05/47] fix: encode and decode an empty BIT STRING as zero bits
 instead of one zero bit

---
 asn1PERser/codec/per/decoder.py | 4 ++++
 asn1PERser/codec/per/encoder.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index ae017e4..7a51ca7 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -172,6 +172,10 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
+            if bitstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", bitstring.__class__.__name__)
+                logger.info("%s: decoding finished.", bitstring.__class__.__name__)
+                return bitstring.__class__('')
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
             per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 4213d30..ac6b2db 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -122,7 +122,7 @@ def encode_bitstring(bitstring):    # 16
     if bitstring.namedValues:    # 16.2, 16.3
         raise NotImplemented
 
-    bitstring_value = bitstring.asBinary()
+    bitstring_value = bitstring.asBinary() if len(bitstring) else ''    # asBinary() of empty bitstring is '0'
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-- 
2.43.0


From 51edfc80679d64affaf047825504fe1865f4536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 06/47] fix: do not skip to an octet boundary after an
 extended-size BIT STRING

---
 asn1PERser/codec/per/decoder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7a51ca7..85d8629 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -177,7 +177,6 @@ def decode_bitstring(bitstring, per_bytes):
                 logger.info("%s: decoding finished.", bitstring.__class__.__name__)
                 return bitstring.__class__('')
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
-            per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-- 
2.43.0


From 481876862873893e49af5acffdc49d25b97008d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 07/47] fix: keep the extension bit of an empty string with
 extensible SIZE(0)

---
 asn1PERser/codec/per/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index ac6b2db..941c9db 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -139,7 +139,7 @@ def encode_bitstring(bitstring):    # 16
             return [extension_bit_field] + bitstring_length_determinant + [bitstring_bit_field]
     # else:    # 16.7
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
-        return
+        return [extension_bit_field] if extension_bit_field else None
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         if bitstring_len <= 16:    # 16.9
             bitstring_bit_field = bit_field(octet_align=False, value=bitstring_value)
@@ -195,7 +195,7 @@ def encode_octetstring(octetstring):
                                                                        upperBound=None)
             return [extension_bit_field] + octetstring_length_determinant + [octetstring_bit_field]
     if octetstring.subtypeSpec.upperEndpoint == 0:    # 17.5
-        return
+        return [extension_bit_field] if extension_bit_field else None
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         if octetstring_len <= 2:    # 17.6
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
-- 
2.43.0


From e06a6f2aafa7d6d11d6c7b182d74a5c8596af741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 08/47] fix: use the unconstrained length for OCTET STRING and
 SEQUENCE OF sizes with an upper bound of 64K or more

---
 asn1PERser/codec/per/decoder.py | 6 +++---
 asn1PERser/codec/per/encoder.py | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 85d8629..d23ccd9 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -290,7 +290,7 @@ def decode_octetstring(octetstring, per_bytes):
     else:  # 17.8
         logger.info("%s: lowerEndpoint = %s; upperEndpoint = %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint, octetstring.subtypeSpec.upperEndpoint)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = decode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=per_bytes,
@@ -438,7 +438,7 @@ def decode_sequence_of(sequence_of, per_bytes):
         logger.info("%s: extension bit: %s", sequence_of.__class__.__name__, extension_bit_field)
         if not extension_bit_field:
             length_determinant = decode_length_determinant(normally_small_length=False,
-                                                           constrained=True,
+                                                           constrained=sequence_of.subtypeSpec.upperEndpoint < 65536,
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
@@ -481,7 +481,7 @@ def decode_sequence_of(sequence_of, per_bytes):
     else:  # 20.6
         logger.info("%s: lowerEndpoint = %s and upperEndpoint = %s", sequence_of.__class__.__name__,
                     sequence_of.subtypeSpec.lowerEndpoint, sequence_of.subtypeSpec.upperEndpoint)
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = decode_length_determinant(normally_small_length=False,
                                                            constrained=True,
                                                            n=per_bytes,
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 941c9db..70b840d 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -211,7 +211,7 @@ def encode_octetstring(octetstring):
             raise NotImplemented
     else:    # 17.8
         octetstring_bit_field = bit_field(octet_align=True, value=octetstring_value)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = encode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=octetstring_len,
@@ -362,7 +362,8 @@ def encode_sequence_of(sequence_of):    # 20
     if sequence_of.subtypeSpec.extensionMarker:    #20.4
         if sequence_of.subtypeSpec.lowerEndpoint <= n <= sequence_of.subtypeSpec.upperEndpoint:
             extension_bit_field = bit_field(octet_align=False, value='0')
-            length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
+            length_determinant = encode_length_determinant(normally_small_length=False,
+                                                           constrained=sequence_of.subtypeSpec.upperEndpoint < 65536,
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
             return [extension_bit_field] + length_determinant + sequence_of_field_list
@@ -379,7 +380,7 @@ def encode_sequence_of(sequence_of):    # 20
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
     else:    # 20.6
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
-- 
2.43.0


From 982bf96e8a0fcc14bb6112b4b6d6ed5f83fd21ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:10 +0000
Subject: [PATCH 09/47] fix: support extensible constraints with a MIN or MAX
 endpoint

---
 asn1PERser/codec/per/decoder.py | 14 ++++++++++-
 asn1PERser/codec/per/encoder.py | 44 ++++++++++++++++++++++-----------
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index d23ccd9..e2f660c 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -93,6 +93,17 @@ def decode_integer(integer, per_bytes):
             logger.info("%s: value: %s", integer.__class__.__name__, unconstrained_whole_number)
             logger.info("%s: decoding finished.", integer.__class__.__name__)
             return integer.__class__(unconstrained_whole_number)
+        elif is_semi_constrained_whole_number(integer):
+            semi_constrained_whole_number = decode_semi_constrained_whole_number_from_field_list(per_bytes=per_bytes,
+                                                                                                 lowerBound=integer.subtypeSpec.lowerEndpoint)
+            logger.info("%s: value: %s", integer.__class__.__name__, semi_constrained_whole_number)
+            logger.info("%s: decoding finished.", integer.__class__.__name__)
+            return integer.__class__(semi_constrained_whole_number)
+        elif not is_constrained_whole_number(integer):
+            unconstrained_whole_number = decode_unconstrained_whole_number(per_bytes)
+            logger.info("%s: value: %s", integer.__class__.__name__, unconstrained_whole_number)
+            logger.info("%s: decoding finished.", integer.__class__.__name__)
+            return integer.__class__(unconstrained_whole_number)
         else:
             constrained_whole_number = decode_constrained_whole_number_from_field_list(per_bytes=per_bytes,
                                                                                        lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
@@ -438,7 +449,8 @@ def decode_sequence_of(sequence_of, per_bytes):
         logger.info("%s: extension bit: %s", sequence_of.__class__.__name__, extension_bit_field)
         if not extension_bit_field:
             length_determinant = decode_length_determinant(normally_small_length=False,
-                                                           constrained=sequence_of.subtypeSpec.upperEndpoint < 65536,
+                                                           constrained=(sequence_of.subtypeSpec.upperEndpoint is not None
+                                                                        and sequence_of.subtypeSpec.upperEndpoint < 65536),
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 70b840d..8dcb113 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -66,7 +66,13 @@ def encode_boolean(boolean):    # 12
 
 def encode_integer(integer):
     if integer.subtypeSpec.extensionMarker:    # 13.1
-        if integer.subtypeSpec.lowerEndpoint <= integer._value <= integer.subtypeSpec.upperEndpoint:
+        if is_within_endpoints(integer._value, integer.subtypeSpec) and not is_constrained_whole_number(integer):
+            extension_bit_field = bit_field(octet_align=False, value='0')
+            if is_semi_constrained_whole_number(integer):
+                return [extension_bit_field] + create_field_list_for_semi_constrained_whole_number(n=integer._value,
+                                                                                                   lowerEndpoint=integer.subtypeSpec.lowerEndpoint)
+            return [extension_bit_field] + create_field_list_for_unconstrained_whole_number(integer)
+        elif is_within_endpoints(integer._value, integer.subtypeSpec):
             constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=integer._value,
                                                                                                  lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
                                                                                                  upperEndpoint=integer.subtypeSpec.upperEndpoint)
@@ -85,15 +91,8 @@ def encode_integer(integer):
                                                                                                  upperEndpoint=integer.subtypeSpec.upperEndpoint)
             return constrained_whole_number_field_list
         elif is_semi_constrained_whole_number(integer):    # 13.2.3
-            semi_constrained_whole_number = encode_semi_constrained_whole_number(n=integer._value,
-                                                                                 lower_bound=integer.subtypeSpec.lowerEndpoint)
-            n = int(len(semi_constrained_whole_number.value) / 8)
-            unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
-                                                                         constrained=False,
-                                                                         n=n,
-                                                                         lowerBound=1,
-                                                                         upperBound=None)
-            return unconstrained_length_determinant + [semi_constrained_whole_number]
+            return create_field_list_for_semi_constrained_whole_number(n=integer._value,
+                                                                       lowerEndpoint=integer.subtypeSpec.lowerEndpoint)
 
         else:    # 13.2.4
             unconstrained_whole_number_field_list = create_field_list_for_unconstrained_whole_number(integer)
@@ -126,7 +125,7 @@ def encode_bitstring(bitstring):    # 16
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-        if bitstring.subtypeSpec.lowerEndpoint <= bitstring_len <= bitstring.subtypeSpec.upperEndpoint:
+        if is_within_endpoints(bitstring_len, bitstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             bitstring_bit_field = bit_field(octet_align=True, value=bitstring_value)
@@ -183,7 +182,7 @@ def encode_octetstring(octetstring):
 
     extension_bit_field = None
     if octetstring.subtypeSpec.extensionMarker:    # 17.3
-        if octetstring.subtypeSpec.lowerEndpoint <= octetstring_len <= octetstring.subtypeSpec.upperEndpoint:
+        if is_within_endpoints(octetstring_len, octetstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
@@ -360,10 +359,11 @@ def encode_sequence_of(sequence_of):    # 20
     for component in sequence_of:
         component.fill_field_list(sequence_of_field_list)
     if sequence_of.subtypeSpec.extensionMarker:    #20.4
-        if sequence_of.subtypeSpec.lowerEndpoint <= n <= sequence_of.subtypeSpec.upperEndpoint:
+        if is_within_endpoints(n, sequence_of.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
             length_determinant = encode_length_determinant(normally_small_length=False,
-                                                           constrained=sequence_of.subtypeSpec.upperEndpoint < 65536,
+                                                           constrained=(sequence_of.subtypeSpec.upperEndpoint is not None
+                                                                        and sequence_of.subtypeSpec.upperEndpoint < 65536),
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
             return [extension_bit_field] + length_determinant + sequence_of_field_list
@@ -451,6 +451,17 @@ def create_field_list_for_constrained_whole_number(n, lowerEndpoint, upperEndpoi
         return constrained_length_determinant + [constrained_whole_number]
 
 
+def create_field_list_for_semi_constrained_whole_number(n, lowerEndpoint):
+    semi_constrained_whole_number = encode_semi_constrained_whole_number(n=n, lower_bound=lowerEndpoint)
+    octet_len = int(len(semi_constrained_whole_number.value) / 8)
+    unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=octet_len,
+                                                                 lowerBound=1,
+                                                                 upperBound=None)
+    return unconstrained_length_determinant + [semi_constrained_whole_number]
+
+
 def encode_open_type_field(type):    # 11.2
     type_field_list = []
     type.fill_field_list(type_field_list)
@@ -649,6 +660,11 @@ def is_semi_constrained_whole_number(integer):
     return False
 
 
+def is_within_endpoints(n, constraint):
+    return ((constraint.lowerEndpoint is None or constraint.lowerEndpoint <= n) and
+            (constraint.upperEndpoint is None or n <= constraint.upperEndpoint))
+
+
 def is_constant(integer):
     return False
 
-- 
2.43.0


From 1fa72397b431580ba4c708a924b70609782fb89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 10/47] fix: refuse a length of 16384, which does not fit the
 two octet length determinant

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 8dcb113..2d101a2 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -579,7 +579,7 @@ def encode_length_determinant(normally_small_length, constrained, n, lowerBound,
             encoded_length_determinant_with_8th_bit_zero = bit_field(octet_align=encoded_length_determinant.octet_align,
                                                                      value= '0' + encoded_length_determinant.value)
             return [encoded_length_determinant_with_8th_bit_zero]
-        elif 127 < n <= 16384:    # 11.9.3.7
+        elif 127 < n < 16384:    # 11.9.3.7
             determinant_size = bit_field_size(octets=1, bits=6)
             encoded_length_determinant = encode_non_negative_binary_integer(value=n, size=determinant_size,
                                                                             octet_align=True)
-- 
2.43.0


From 04f3322933b865c52c0575a81d2308b332fad8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:43 +0000
Subject: [PATCH 11/47] fix: use the general length determinant for
 unconstrained INTEGER longer than 127 octets

---
 asn1PERser/codec/per/decoder.py |  6 +++++-
 asn1PERser/codec/per/encoder.py | 12 ++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index e2f660c..0bc19d6 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -694,7 +694,11 @@ def decode_normally_small_non_negative_whole_number(per_bytes, lower_bound):
 
 def decode_unconstrained_whole_number(per_bytes):
     logger.debug("function: decode_unconstrained_whole_number; params: per_bytes: (hidden)")
-    unconstrained_length_determinant = per_bytes.next(octet_align=True)
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=1,
+                                                                 upperBound=None)
     logger.debug("unconstarined length determinant: %s", unconstrained_length_determinant)
     unconstrained_whole_number = twos_comp(
         per_bytes=per_bytes.next(bit_field_size(octets=unconstrained_length_determinant, bits=0)),
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 2d101a2..35a2841 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -535,10 +535,14 @@ def encode_semi_constrained_whole_number(n, lower_bound):    # 11.7
 
 
 def create_field_list_for_unconstrained_whole_number(integer):
-    unconstrained_length_determinant = get_twos_complement_octet_len(integer)
-    unconstrained_whole_number = encode_unconstrained_whole_number(integer, unconstrained_length_determinant)
-    unconstrained_length_determinant = '{0:08b}'.format(unconstrained_length_determinant)
-    return [bit_field(octet_align=True, value=unconstrained_length_determinant + unconstrained_whole_number.value)]
+    octet_len = get_twos_complement_octet_len(integer)
+    unconstrained_whole_number = encode_unconstrained_whole_number(integer, octet_len)
+    unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=octet_len,
+                                                                 lowerBound=1,
+                                                                 upperBound=None)
+    return unconstrained_length_determinant + [unconstrained_whole_number]
 
 
 def encode_unconstrained_whole_number(integer, unconstrained_length_determinant):    # 11.8
-- 
2.43.0


From d1c887a7eba4583a7afd51e28640aac87899eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:47 +0000
Subject: [PATCH 12/47] fix: MIN as lower endpoint of a SIZE constraint means 0

---
 asn1PERser/classes/types/constraint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index c563c5f..d9e9280 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -45,7 +45,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # MIN of a SIZE is 0
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(SequenceOfValueSize, self).__init__()
 
@@ -77,7 +77,7 @@ class SingleValue(SingleValueConstraint):
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # MIN of a SIZE is 0
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
-- 
2.43.0


From 56f8c4909897462b073d339b8a736225c9436a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:28 +0000
Subject: [PATCH 13/47] fix: compare BIT STRING components with their DEFAULT
 by length too

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 35a2841..c5940a4 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -253,7 +253,7 @@ def encode_sequence(sequence):    # 19
             # if isDefaulted, default value must have been initiated when defining asn1 Schema,
             # if default value is different than value passed when filling schema, assume component
             # is present
-            if namedType._NamedType__type._value != componentType._value:    # hacky...:) no other way for now
+            if namedType.asn1Object != componentType:
                 optional_default_bit_field_value += '1'
                 componentType.fill_field_list(rootComponentFieldList)
             else:
-- 
2.43.0


From 8e817884e3feeae78c4b4b909b356dc5a11620e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 14/47] fix: treat extension additions equal to their DEFAULT
 as absent

---
 asn1PERser/codec/per/encoder.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index c5940a4..cdcbc4a 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -253,7 +253,7 @@ def encode_sequence(sequence):    # 19
             # if isDefaulted, default value must have been initiated when defining asn1 Schema,
             # if default value is different than value passed when filling schema, assume component
             # is present
-            if namedType.asn1Object != componentType:
+            if not is_default_value(namedType, componentType):
                 optional_default_bit_field_value += '1'
                 componentType.fill_field_list(rootComponentFieldList)
             else:
@@ -278,7 +278,7 @@ def encode_sequence(sequence):    # 19
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
                     extensionComponentType = sequence.getComponentByName(namedType.name)
-                    if extensionComponentType.isValue:
+                    if extensionComponentType.isValue and not is_default_value(namedType, extensionComponentType):
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
 
@@ -297,7 +297,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '0'
                     previous_extensionComponent = {'name': namedType.name,
                                                    'present': bool(int(extension_addition_bit_field_value[-1])),
-                                                   'optional': namedType.isOptional}
+                                                   'optional': namedType.isOptional or namedType.isDefaulted}
             if sequence.extensionAdditionGroups:
                 for index_group, extensionAdditionGroup in enumerate(sequence.extensionAdditionGroups, start=1):
                     extension_addition_group_present = False
@@ -305,7 +305,7 @@ def encode_sequence(sequence):    # 19
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
                         extensionComponentType = sequence.getComponentByName(namedType.name)
-                        if extensionComponentType.isValue:
+                        if extensionComponentType.isValue and not is_default_value(namedType, extensionComponentType):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
                             if not hasattr(extensionComponentType, '_componentValues'):
@@ -317,7 +317,7 @@ def encode_sequence(sequence):    # 19
                                     previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
                                                             'present': previous_extension_addition_group_component_present,
-                                                            'optional': namedType.isOptional}
+                                                            'optional': namedType.isOptional or namedType.isDefaulted}
                         extension_group_components[index_group].append(previous_extensionGroupComponent)
                     if not extension_addition_group_present:
                         extension_addition_bit_field_value += '0'
@@ -673,6 +673,10 @@ def is_constant(integer):
     return False
 
 
+def is_default_value(namedType, componentType):
+    return namedType.isDefaulted and not (namedType.asn1Object != componentType)
+
+
 def create_new_fake_empty_sequence(rootComponent):
     class FooConstraint(object):
         pass
-- 
2.43.0


From 648265cec53ae833bf3c78aa781c01b5ad862e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:45 +0000
Subject: [PATCH 15/47] fix: encode an OPTIONAL SEQUENCE OF that is present but
 empty as present

---
 asn1PERser/codec/per/encoder.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index cdcbc4a..f6c8632 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -1,6 +1,7 @@
 from collections import namedtuple
 from collections import defaultdict
 import codecs
+from pyasn1.type.univ import SequenceOf
 
 
 __all__ = ['encode']
@@ -242,7 +243,7 @@ def encode_sequence(sequence):    # 19
                     optional_default_bit_field_value += '1'
                     componentType.fill_field_list(rootComponentFieldList)
                 else:
-                    if len(componentType._componentValues) > 0:
+                    if is_present(componentType):
                         optional_default_bit_field_value += '1'
                         componentType.fill_field_list(rootComponentFieldList)
                     else:
@@ -287,7 +288,7 @@ def encode_sequence(sequence):    # 19
                             open_type_field_list = encode_open_type_field(extensionComponentType)
                             extension_addition_field_list.extend(open_type_field_list)
                         else:
-                            if len(extensionComponentType._componentValues) > 0:
+                            if is_present(extensionComponentType):
                                 extension_addition_bit_field_value += '1'
                                 open_type_field_list = encode_open_type_field(extensionComponentType)
                                 extension_addition_field_list.extend(open_type_field_list)
@@ -312,7 +313,7 @@ def encode_sequence(sequence):    # 19
                                 extension_addition_group_present = True
                                 previous_extension_addition_group_component_present = True
                             else:
-                                if len(extensionComponentType._componentValues) > 0:
+                                if is_present(extensionComponentType):
                                     extension_addition_group_present = True
                                     previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
@@ -673,6 +674,12 @@ def is_constant(integer):
     return False
 
 
+def is_present(componentType):
+    # SEQUENCE OF with no components is a value (its schema has isValue == False), but SEQUENCE with no
+    # components can not be told from SEQUENCE that was never set
+    return isinstance(componentType, SequenceOf) or len(componentType._componentValues) > 0
+
+
 def is_default_value(namedType, componentType):
     return namedType.isDefaulted and not (namedType.asn1Object != componentType)
 
-- 
2.43.0


From 1f5caaa6638a76726e824c9ecc8a86966b5ebd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:58 +0000
Subject: [PATCH 16/47] fix: decode an empty SEQUENCE OF to a usable value
 instead of a schema object

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0bc19d6..907ccd8 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -441,7 +441,7 @@ def decode_sequence(sequence, per_bytes):
 
 def decode_sequence_of(sequence_of, per_bytes):
     logger.info("Decoding sequence of: %s", sequence_of.__class__.__name__)
-    new_seq_of = sequence_of.__class__()
+    new_seq_of = sequence_of.__class__().clear()    # a value (with no components yet) and not just a schema
     component_type = sequence_of.getComponentType()
     if sequence_of.subtypeSpec.extensionMarker:  # 20.4
         logger.info("%s: extension marker should be present", sequence_of.__class__.__name__)
-- 
2.43.0


From 61f6bbb7a3be424f304abc3f946568b44b09b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:01 +0000
Subject: [PATCH 17/47] fix: read the SEQUENCE extension bitmap by its encoded
 length and skip unknown additions

---
 asn1PERser/codec/per/decoder.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 907ccd8..7931a58 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -392,14 +392,14 @@ def decode_sequence(sequence, per_bytes):
     if extension_bit:    # 19.7
         extension_addition_len = len(sequence.extensionAddition.namedTypes) if sequence.extensionAddition else 0
         extension_addition_group_len = len(sequence.extensionAdditionGroups)
-        extension_addition_bit_field_len = extension_addition_len + extension_addition_group_len
+        known_extension_addition_len = extension_addition_len + extension_addition_group_len
         extension_addition_length_determinant = decode_length_determinant(normally_small_length=True,
                                                                           constrained=False,
                                                                           n=per_bytes,
                                                                           lowerBound=None,
                                                                           upperBound=None)
         extension_addition_bit_field_value = per_bytes.next(size=bit_field_size(octets=0, bits=extension_addition_length_determinant))
-        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_bit_field_len)
+        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_length_determinant)
         logger.info("%s: extension bits: '%s'; within that: extension addition bits: '%s'; extension addition group bits: '%s'",
                     sequence.__class__.__name__,
                     extension_addition_bit_field_bits,
@@ -435,6 +435,10 @@ def decode_sequence(sequence, per_bytes):
                 else:
                     logger.info("%s: extension addition group number %s not present",
                                 sequence.__class__.__name__, group_index)
+        for is_present_bit in extension_addition_bit_field_bits[known_extension_addition_len:]:    # 19.9: added in newer version
+            if int(is_present_bit):
+                logger.info("%s: skipping unknown extension addition", sequence.__class__.__name__)
+                skip_open_type_field(per_bytes)
     logger.info("%s: decoding finished.", sequence.__class__.__name__)
     return new_seq
 
@@ -653,6 +657,15 @@ def decode_open_type_field(type, per_bytes):
     return decoded
 
 
+def skip_open_type_field(per_bytes):
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=None,
+                                                                 upperBound=None)
+    per_bytes.next(size=bit_field_size(octets=unconstrained_length_determinant, bits=0), octet_align=True)
+
+
 def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     logger.debug("function: decode_constrained_whole_number; params: per_bytes: (hidden), lowerBound: %s, "
                  "upperBound: %s", lowerBound, upperBound)
-- 
2.43.0


From 2c240b40cecc773e856f479dcd31ea582252d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:05 +0000
Subject: [PATCH 18/47] fix: refuse truncated input instead of decoding the
 bits that are left

---
 asn1PERser/codec/per/decoder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7931a58..b4aab7d 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -11,6 +11,10 @@ __all__ = ['decode']
 logger = logging.getLogger("asn1perser.decoder")
 
 
+class PerDecodingException(Exception):
+    pass
+
+
 class Offset(object):
     def __init__(self, octets=0, bits=0):
         self.prev_octets = octets
@@ -59,6 +63,8 @@ class PerBytes(object):
         bits_stop = (item.stop.curr_octets * 8) + item.stop.curr_bits
         if bits_start == bits_stop:
             return '0'
+        if bits_stop > len(self.binary_string):
+            raise PerDecodingException("{} bit(s) missing at the end of data".format(bits_stop - len(self.binary_string)))
         return self.binary_string[bits_start:bits_stop]
 
     def __len__(self):
-- 
2.43.0


From e2c14d82bef72b5e2b35081abfb2b1f7a906c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 19/47] fix: enforce SIZE(0) of SEQUENCE OF when encoding

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index f6c8632..4938910 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -376,7 +376,7 @@ def encode_sequence_of(sequence_of):    # 20
             return [extension_bit_field] + length_determinant + sequence_of_field_list
     elif n < sequence_of.subtypeSpec.lowerEndpoint:
         raise SizeConstrainViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
-    elif sequence_of.subtypeSpec.upperEndpoint and (n > sequence_of.subtypeSpec.upperEndpoint):
+    elif (sequence_of.subtypeSpec.upperEndpoint is not None) and (n > sequence_of.subtypeSpec.upperEndpoint):
         raise InvalidComponentIndexIntoStructuredType('invalid index: {}'.format(sequence_of.subtypeSpec.upperEndpoint + 1))
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
-- 
2.43.0


From 64d370d2851cb94c8513204f12ee213d9f6135ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 20/47] fix: refuse decoded whole numbers and lengths outside
 of their constraint

---
 asn1PERser/codec/per/decoder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index b4aab7d..3dba799 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -634,6 +634,8 @@ def decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint, up
                                                                    upperBound=upperBound)
 
         val = per_bytes.next(bit_field_size(octets=constrained_length_determinant, bits=0), octet_align=True)
+        if lowerEndpoint + val > upperEndpoint:
+            raise PerDecodingException("{} is outside of range {}..{}".format(lowerEndpoint + val, lowerEndpoint, upperEndpoint))
         return lowerEndpoint + val
 
 
@@ -693,6 +695,9 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
                                                                          octet_align=True,
                                                                          minimum_number_of_octets=True)
         return non_negative_binary_integer
+    if lowerBound + non_negative_binary_integer > upperBound:
+        raise PerDecodingException("{} is outside of range {}..{}".format(lowerBound + non_negative_binary_integer,
+                                                                          lowerBound, upperBound))
     return lowerBound + non_negative_binary_integer
 
 
-- 
2.43.0


From d9a2bd59a39065ad0913da8f0d749b02ca8e0b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:40 +0000
Subject: [PATCH 21/47] fix: encode ENUMERATED by index of the sorted
 enumeration values, not by the value itself

---
 asn1PERser/codec/per/decoder.py | 7 +++----
 asn1PERser/codec/per/encoder.py | 6 ++++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 3dba799..11ae321 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -155,7 +155,7 @@ def decode_enumerated(enumerated, per_bytes):
         enumeration_index = decode_constrained_whole_number(per_bytes, lowerBound=0, upperBound=len(list(enumerated.namedValues)) - 1)
         logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
         logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-        return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+        return enumerated.__class__(sorted(enumerated.namedValues.values())[enumeration_index])    # 14.1
     else:    # 14.3
         logger.info("%s: extension marker should be present", enumerated.__class__.__name__)
         value_is_extension_addition = per_bytes.next(size=bit_field_size(octets=0, bits=1))
@@ -165,13 +165,12 @@ def decode_enumerated(enumerated, per_bytes):
                                                                 upperBound=len(list(enumerated.enumerationRoot)) - 1)
             logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
             logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-            return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+            return enumerated.__class__(sorted(enumerated.enumerationRoot.values())[enumeration_index])    # 14.1
         else:
             enumeration_index = decode_normally_small_non_negative_whole_number(per_bytes, lower_bound=0)
-            enumeration_index += len(enumerated.enumerationRoot)
             logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
             logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-            return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+            return enumerated.__class__(list(enumerated.extensionAddition.values())[enumeration_index])
 
 
 def decode_bitstring(bitstring, per_bytes):
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 4938910..e997f10 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -102,12 +102,14 @@ def encode_integer(integer):
 
 def encode_enumerated(enumerated):
     if not enumerated.subtypeSpec.extensionMarker:    # 14.2
-        return create_field_list_for_constrained_whole_number(n=enumerated._value, lowerEndpoint=0,
+        n = sorted(enumerated.namedValues.values()).index(enumerated._value)    # 14.1
+        return create_field_list_for_constrained_whole_number(n=n, lowerEndpoint=0,
                                                               upperEndpoint=len(list(enumerated.namedValues)) - 1)
     else:    # 14.3
         if enumerated._value in list(enumerated.enumerationRoot.values()):
+            n = sorted(enumerated.enumerationRoot.values()).index(enumerated._value)    # 14.1
             extension_bit_field = bit_field(octet_align=False, value='0')
-            constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=enumerated._value,
+            constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=n,
                                                                                                  lowerEndpoint=0,
                                                                                                  upperEndpoint=len(list(enumerated.enumerationRoot)) - 1)
             return [extension_bit_field] + constrained_whole_number_field_list
-- 
2.43.0


From c700dd3bca128a225f4de1e921558421ffea375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:43 +0000
Subject: [PATCH 22/47] fix: decode a CHOICE holding an empty string to that
 CHOICE instead of failing

---
 asn1PERser/codec/per/decoder.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 11ae321..a49f2a4 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -75,8 +75,6 @@ def decode(per_stream, asn1Spec, **kwargs):
     per_bytes = PerBytes(binascii.hexlify(per_stream))
     logger.debug("Decoding of bytes: '%s' started. Binary representation: '%s'", codecs.encode(per_stream, "hex_codec"), per_bytes.binary_string)
     decoded = asn1Spec.create_field_list(per_bytes)
-    if decoded == '':
-        return asn1Spec.__class__('')
     return decoded
 
 
@@ -200,7 +198,7 @@ def decode_bitstring(bitstring, per_bytes):
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
         logger.info("%s: upperEndpoint is 0 so value is empty string: ''", bitstring.__class__.__name__)
         logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-        return ''
+        return bitstring.__class__('')
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", bitstring.__class__.__name__, bitstring.subtypeSpec.lowerEndpoint)
         if bitstring.subtypeSpec.lowerEndpoint <= 16:    # 16.9
@@ -283,7 +281,7 @@ def decode_octetstring(octetstring, per_bytes):
     if octetstring.subtypeSpec.upperEndpoint == 0:  # 17.5
         logger.info("%s: upperEndpoint is 0 so value is empty string: ''", octetstring.__class__.__name__)
         logger.info("%s: decoding finished.", octetstring.__class__.__name__)
-        return ''
+        return octetstring.__class__('')
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint)
-- 
2.43.0


From ab4ab687f83741927f779163fee477e1075aa22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 23/47] fix: refuse a decoded SEQUENCE OF with a number of
 components outside of its SIZE

---
 asn1PERser/codec/per/decoder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index a49f2a4..e0994f4 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -3,7 +3,7 @@ import logging
 import codecs
 from collections import deque
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
-    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant
+    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, is_within_endpoints
 
 
 __all__ = ['decode']
@@ -521,6 +521,10 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=None)
+            if not is_within_endpoints(length_determinant, sequence_of.subtypeSpec):
+                raise PerDecodingException("{} component(s) is outside of SIZE {}..{}".format(length_determinant,
+                                                                                              sequence_of.subtypeSpec.lowerEndpoint,
+                                                                                              sequence_of.subtypeSpec.upperEndpoint))
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
-- 
2.43.0


From 82b45cdaff1425b1e559df1ccdf711f20ccb2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 24/47] fix: to_dict must not instantiate absent components
 (they were encoded as present later) nor show an absent CHOICE as None

---
 .../classes/data/builtin/SequenceType.py      | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 21f88c2..88aac7f 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -1,6 +1,6 @@
 from collections import OrderedDict
 from pyasn1.type.univ import Sequence, noValue
-from asn1PERser.codec.per.encoder import encode_sequence
+from asn1PERser.codec.per.encoder import encode_sequence, is_present
 from asn1PERser.codec.per.decoder import decode_sequence
 from asn1PERser.classes.types.constraint import NoConstraint
 
@@ -34,11 +34,21 @@ class SequenceType(Sequence):
 
     def to_dict(self, is_root=True):
         component_dict = OrderedDict()
-        for componentType, componentValue in self.items():
-            if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    component_dict[componentType] = value_dict
+        for namedType in self.componentType.namedTypes:
+            # component that was not set can not be instantiated here - it would be encoded as present later
+            componentValue = self.getComponentByName(namedType.name, default=None, instantiate=False)
+            if componentValue is None:
+                if namedType.isOptional:
+                    continue
+                componentValue = namedType.asn1Object
+            if isinstance(componentValue, SequenceType):
+                if namedType.isOptional and not is_present(componentValue):
+                    continue
+            elif not componentValue.isValue:
+                continue
+            value_dict = componentValue.to_dict(is_root=False)
+            if value_dict is not noValue:
+                component_dict[namedType.name] = value_dict
 
         if is_root:
             return component_dict
-- 
2.43.0


From b75c05c88f1c8ed48f34ef0076b455c43523bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 25/47] fix: to_dict of SEQUENCE OF and CHOICE keeps empty
 structured elements

---
 asn1PERser/classes/data/builtin/ChoiceType.py     |  5 +----
 asn1PERser/classes/data/builtin/SequenceOfType.py | 15 ++-------------
 2 files changed, 3 insertions(+), 17 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/ChoiceType.py b/asn1PERser/classes/data/builtin/ChoiceType.py
index 92e5cd7..b0f0e83 100644
--- a/asn1PERser/classes/data/builtin/ChoiceType.py
+++ b/asn1PERser/classes/data/builtin/ChoiceType.py
@@ -22,7 +22,4 @@ class ChoiceType(Choice):
     def to_dict(self, is_root=True):
         for componentType, componentValue in self.items():
             if componentValue is not noValue and componentValue.isValue:
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    return {componentType: value_dict}
-                return {}
+                return {componentType: componentValue.to_dict()}
diff --git a/asn1PERser/classes/data/builtin/SequenceOfType.py b/asn1PERser/classes/data/builtin/SequenceOfType.py
index 1fc7c2d..0040a11 100644
--- a/asn1PERser/classes/data/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/data/builtin/SequenceOfType.py
@@ -1,4 +1,4 @@
-from pyasn1.type.univ import SequenceOf, noValue
+from pyasn1.type.univ import SequenceOf
 from asn1PERser.codec.per.encoder import encode_sequence_of
 from asn1PERser.codec.per.decoder import decode_sequence_of
 from asn1PERser.classes.types.constraint import SequenceOfValueSize, MAX
@@ -17,15 +17,4 @@ class SequenceOfType(SequenceOf):
         return decoded
 
     def to_dict(self, is_root=True):
-        component_list = []
-        for componentValue in self:
-            if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    component_list.append(value_dict)
-
-        if is_root:
-            return component_list
-        if not component_list:
-            return noValue
-        return component_list
+        return [componentValue.to_dict() for componentValue in self]
-- 
2.43.0


From 65474b2af9ab5826427371e86f90a1843484170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:22 +0000
Subject: [PATCH 26/47] fix: bounds of ConstraintOr with an unbounded (MIN,
 MAX) constraint

---
 asn1PERser/classes/types/constraint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index d9e9280..ea45693 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -89,8 +89,10 @@ class ValueSize(ValueSizeConstraint):
 class ConstraintOr(ConstraintsUnion):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints]
+        self.lowerEndpoint = None if None in lower_endpoints else min(lower_endpoints)
+        self.upperEndpoint = None if None in upper_endpoints else max(upper_endpoints)
         super(ConstraintOr, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From 5bc277c9a297dfce74bad35846b676ed356a26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:22 +0000
Subject: [PATCH 27/47] fix: bounds of ConstraintAnd are those of the
 intersection

---
 asn1PERser/classes/types/constraint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index ea45693..6a2d9a5 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -103,8 +103,10 @@ class ConstraintOr(ConstraintsUnion):
 class ConstraintAnd(ConstraintsIntersection):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints if constraint.lowerEndpoint is not None]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints if constraint.upperEndpoint is not None]
+        self.lowerEndpoint = max(lower_endpoints) if lower_endpoints else None
+        self.upperEndpoint = min(upper_endpoints) if upper_endpoints else None
         super(ConstraintAnd, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From 7a389bd83d4c365123b6e3f41b66842883e45100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 28/47] fix: to_dict of SEQUENCE shows no mandatory component
 that was not set

---
 asn1PERser/classes/data/builtin/SequenceType.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 88aac7f..dc3b2f1 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -38,7 +38,7 @@ class SequenceType(Sequence):
             # component that was not set can not be instantiated here - it would be encoded as present later
             componentValue = self.getComponentByName(namedType.name, default=None, instantiate=False)
             if componentValue is None:
-                if namedType.isOptional:
+                if not namedType.isDefaulted:
                     continue
                 componentValue = namedType.asn1Object
             if isinstance(componentValue, SequenceType):
-- 
2.43.0


From ff9e4ed7832515c06db136784413ddbe49a26fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:31 +0000
Subject: [PATCH 29/47] fix: to_dict of CHOICE with empty SEQUENCE chosen

---
 asn1PERser/classes/data/builtin/ChoiceType.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/ChoiceType.py b/asn1PERser/classes/data/builtin/ChoiceType.py
index b0f0e83..39500d7 100644
--- a/asn1PERser/classes/data/builtin/ChoiceType.py
+++ b/asn1PERser/classes/data/builtin/ChoiceType.py
@@ -1,4 +1,4 @@
-from pyasn1.type.univ import Choice, noValue
+from pyasn1.type.univ import Choice, Sequence, noValue
 from asn1PERser.codec.per.encoder import encode_choice
 from asn1PERser.codec.per.decoder import decode_choice
 from asn1PERser.classes.types.constraint import NoConstraint
@@ -21,5 +21,6 @@ class ChoiceType(Choice):
 
     def to_dict(self, is_root=True):
         for componentType, componentValue in self.items():
-            if componentValue is not noValue and componentValue.isValue:
+            # chosen SEQUENCE with no components set is not told from its schema by isValue
+            if componentValue is not noValue and (componentValue.isValue or isinstance(componentValue, Sequence)):
                 return {componentType: componentValue.to_dict()}
-- 
2.43.0


From d2b60c53200bd98fda5e68bd6734f61105998f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:22 +0000
Subject: [PATCH 30/47] fix: SEQUENCE with DEFAULT empty SEQUENCE OF not set
 can be encoded

---
 asn1PERser/codec/per/encoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index e997f10..40cea92 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -683,7 +683,8 @@ def is_present(componentType):
 
 
 def is_default_value(namedType, componentType):
-    return namedType.isDefaulted and not (namedType.asn1Object != componentType)
+    # component that is not a value was not set (copy of DEFAULT with no components is not a value)
+    return namedType.isDefaulted and (not componentType.isValue or not (namedType.asn1Object != componentType))
 
 
 def create_new_fake_empty_sequence(rootComponent):
-- 
2.43.0


From 75c2f85e9a667dd03cfa2a416ab51790b1813d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:29 +0000
Subject: [PATCH 31/47] fix: decoding must not instantiate components of the
 object passed as schema

---
 asn1PERser/codec/per/decoder.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index e0994f4..4754b31 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -366,7 +366,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding optional component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -378,7 +378,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding default component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -388,7 +388,7 @@ def decode_sequence(sequence, per_bytes):
         else:
             logger.info("%s: decoding component: '%s' of type '%s' ...", sequence.__class__.__name__,
                         namedType.name, namedType.asn1Object.__class__.__name__)
-            componentType = sequence.getComponentByName(namedType.name)
+            componentType = namedType.asn1Object
             decoded = componentType.create_field_list(per_bytes)
             logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
             new_seq[namedType.name] = decoded
@@ -415,7 +415,7 @@ def decode_sequence(sequence, per_bytes):
                 if int(is_present_bit):
                     logger.info("%s: extension addition component '%s' present. Decoding...", sequence.__class__.__name__,
                                 extensionNamedType.name)
-                    componentType = sequence.getComponentByName(extensionNamedType.name)
+                    componentType = extensionNamedType.asn1Object
                     decoded = decode_open_type_field(componentType, per_bytes)
                     logger.info("%s: decoded extension addition component: '%s'", sequence.__class__.__name__, extensionNamedType.name)
                     new_seq[extensionNamedType.name] = decoded
@@ -544,7 +544,7 @@ def decode_choice(choice, per_bytes):    # 23
         if len(choice.rootComponent.namedTypes) == 1:  # 23.4
             logger.info("%s: length of choice list is 1", choice.__class__.__name__)
             selected_type = choice.rootComponent.namedTypes[0]
-            selected_component = choice.getComponentByName(selected_type.name)
+            selected_component = selected_type.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...", choice.__class__.__name__,
                         selected_type.name, selected_component.__class__.__name__)
             val = selected_component.create_field_list(per_bytes)
@@ -555,7 +555,7 @@ def decode_choice(choice, per_bytes):    # 23
         else:    # 23.6
             index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
             namedType = choice.rootComponent.namedTypes[index]
-            selected_component = choice.getComponentByPosition(index)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...", choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
             val = selected_component.create_field_list(per_bytes)
@@ -571,7 +571,7 @@ def decode_choice(choice, per_bytes):    # 23
             if len(choice.rootComponent.namedTypes) == 1:  # 23.4
                 logger.info("%s: length of choice list is 1", choice.__class__.__name__)
                 selected_type = choice.rootComponent.namedTypes[0]
-                selected_component = choice.getComponentByName(selected_type.name)
+                selected_component = selected_type.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...",
                             choice.__class__.__name__,
                             selected_type.name, selected_component.__class__.__name__)
@@ -584,7 +584,7 @@ def decode_choice(choice, per_bytes):    # 23
             else:
                 index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
                 namedType = choice.rootComponent.namedTypes[index]
-                selected_component = choice.getComponentByPosition(index)
+                selected_component = namedType.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...",
                             choice.__class__.__name__,
                             namedType.name, selected_component.__class__.__name__, index)
@@ -610,7 +610,7 @@ def decode_choice(choice, per_bytes):    # 23
                              choice.__class__.__name__)
                 raise NotImplemented
             namedType = choice_extension.namedTypes[index]
-            selected_component = choice.getComponentByName(namedType.name)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s (indexed from extension choices). Decoding...",
                         choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
-- 
2.43.0


From 58338bc0cc65f63eb6bd15d2b86dc3973fe2a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:56 +0000
Subject: [PATCH 32/47] fix: encoding must not instantiate absent components of
 the value

---
 asn1PERser/codec/per/encoder.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 40cea92..7cf7204 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -238,7 +238,7 @@ def encode_sequence(sequence):    # 19
     rootComponentFieldList = []
     optional_default_bit_field_value = ''
     for namedType in sequence.rootComponent.namedTypes:
-        componentType = sequence.getComponentByName(namedType.name)
+        componentType = get_component(sequence, namedType)
         if namedType.isOptional:    # 19.2
             if componentType.isValue:
                 if not hasattr(componentType, '_componentValues'):
@@ -280,7 +280,7 @@ def encode_sequence(sequence):    # 19
             extension_group_components = defaultdict(list)
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
-                    extensionComponentType = sequence.getComponentByName(namedType.name)
+                    extensionComponentType = get_component(sequence, namedType)
                     if extensionComponentType.isValue and not is_default_value(namedType, extensionComponentType):
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
@@ -307,7 +307,7 @@ def encode_sequence(sequence):    # 19
                     previous_extensionGroupComponent = {}
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
-                        extensionComponentType = sequence.getComponentByName(namedType.name)
+                        extensionComponentType = get_component(sequence, namedType)
                         if extensionComponentType.isValue and not is_default_value(namedType, extensionComponentType):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
@@ -334,7 +334,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-                            componentType = sequence.getComponentByName(namedType.name)
+                            componentType = get_component(sequence, namedType)
                             group_sequence._componentValues.append(componentType)
                         encoded = encode_open_type_field(group_sequence)
                         encoded_extension_addition_groups.extend(encoded)
@@ -676,6 +676,12 @@ def is_constant(integer):
     return False
 
 
+def get_component(sequence, namedType):
+    # component that was not set must not be instantiated in the value that is encoded: its type stands for it
+    componentType = sequence.getComponentByName(namedType.name, default=None, instantiate=False)
+    return namedType.asn1Object if componentType is None else componentType
+
+
 def is_present(componentType):
     # SEQUENCE OF with no components is a value (its schema has isValue == False), but SEQUENCE with no
     # components can not be told from SEQUENCE that was never set
@@ -701,7 +707,7 @@ def create_new_fake_empty_sequence(rootComponent):
             if sequence_field_list:
                 field_list.extend(sequence_field_list)
 
-        def getComponentByName(self, name):
+        def getComponentByName(self, name, default=None, instantiate=True):
             idx = self.rootComponent.getPositionByName(name)
             return self._componentValues[idx]
 
-- 
2.43.0


From 43e7df563c4d948883af4d17fdd1cebe6d7058c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:12 +0000
Subject: [PATCH 33/47] fix: compiling a schema must not depend on definitions
 of schemas compiled before

---
 asn1PERser/__init__.py       | 3 ++-
 asn1PERser/classes/module.py | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 61e044d..95d676d 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -1,6 +1,6 @@
 from asn1PERser.codec.per.decoder import decode
 from asn1PERser.codec.per.encoder import encode
-from asn1PERser.classes.module import remove_comments
+from asn1PERser.classes.module import remove_comments, forget_parsed_definitions
 from asn1PERser.asn_definitions.module_def import ModuleDefinition
 from asn1PERser.logging_setup import asn1perser_logging_setup
 
@@ -10,6 +10,7 @@ __all__ = ['decode', 'encode', 'parse_asn1_schema']
 asn1perser_logging_setup()
 
 def parse_asn1_schema(asn1_schema, output_folder=None):
+    forget_parsed_definitions()
     no_comment_schema = remove_comments(asn1_schema)
     parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
     return parsed_asn.create_python_template(path=output_folder)
diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 1007edd..faf48d1 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -196,6 +196,13 @@ class ModuleDefinition(Template):
         return module_str
 
 
+def forget_parsed_definitions():
+    typereference_to_type.clear()
+    valuereference_to_type.clear()
+    constants.clear()
+    already_filled_template.clear()
+
+
 def remove_comments(asn1_schema):
     return _remove_line_comments(asn1_schema)
 
-- 
2.43.0


From 2c5174ffd4298d5fb7b92b867de4057a8ea0d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 34/47] fix: line comments end at the next double hyphen, block
 comments are comments

---
 asn1PERser/classes/module.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index faf48d1..79cc53f 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -204,13 +204,26 @@ def forget_parsed_definitions():
 
 
 def remove_comments(asn1_schema):
-    return _remove_line_comments(asn1_schema)
-
-
-def _remove_line_comments(asn1_schema):
+    """ X.680 12.6: '--' comment ends with line or with next '--', '/*' comments can be nested. """
     no_comments = ''
-    for line in asn1_schema.splitlines():
-        line = re.sub('--.*', '', line)
-        line += '\n'
-        no_comments += line
+    in_line_comment = False
+    block_comment_depth = 0
+    for token in re.split(r'(--|/\*|\*/|[\n\v\f\r])', asn1_schema):
+        if token in ('\n', '\v', '\f', '\r'):
+            in_line_comment = False
+            no_comments += '\n'
+        elif in_line_comment:
+            in_line_comment = token != '--'
+        elif block_comment_depth and token == '*/':
+            block_comment_depth -= 1
+        elif token == '/*':
+            block_comment_depth += 1
+            no_comments += ' '
+        elif block_comment_depth:
+            continue
+        elif token == '--':
+            in_line_comment = True
+            no_comments += ' '
+        else:
+            no_comments += token
     return no_comments
-- 
2.43.0


From 8104dc62cb8b9a86877c5a8d850a1432737a2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:02 +0000
Subject: [PATCH 35/47] fix: keywords of two words may be separated by any
 white space

---
 asn1PERser/asn_definitions/module_def.py | 4 ++--
 asn1PERser/asn_definitions/type_def.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/asn_definitions/module_def.py b/asn1PERser/asn_definitions/module_def.py
index d0469ec..385acbe 100644
--- a/asn1PERser/asn_definitions/module_def.py
+++ b/asn1PERser/asn_definitions/module_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, Group
+from pyparsing import Regex, Or, And, Forward, Literal, ZeroOrMore, Group
 from asn1PERser.classes.parse_actions import parse_ModuleDefinition
 from .assignment_def import TypeAssignment, ValueAssignment
 from .common_def import DefinedValue
@@ -10,7 +10,7 @@ from .lexical_items import COMMA, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET, \
 FROM = Literal("FROM")
 EXPLICIT_TAGS = Literal("EXPLICIT TAGS")
 IMPLICIT_TAGS = Literal("IMPLICIT TAGS")
-AUTOMATIC_TAGS = Literal("AUTOMATIC TAGS")
+AUTOMATIC_TAGS = Regex(r'AUTOMATIC\s+TAGS')
 DEFINITIONS = Literal("DEFINITIONS").setResultsName("DEFINITIONS")
 BEGIN = Literal("BEGIN").setResultsName("BEGIN")
 END = Literal("END").setResultsName("END")
diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index 3911105..aa1d799 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group
+from pyparsing import Regex, Or, And, Forward, Literal, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group
 from asn1PERser.classes.parse_actions import parse_SequenceType, parse_ComponentType, \
     parse_ConstrainedType, parse_DateType, parse_TypeWithConstraint, \
     parse_RealType, parse_ChoiceType, parse_AlternativeTypeList, \
@@ -24,10 +24,10 @@ INTEGER = Literal("INTEGER")
 OPTIONAL = Literal("OPTIONAL")
 DEFAULT = Literal("DEFAULT")
 COMPONENTS_OF = Literal("COMPONENTS OF")
-BIT_STRING = Literal("BIT STRING")
+BIT_STRING = Regex(r'BIT\s+STRING')
 ENUMERATED = Literal("ENUMERATED")
 SEQUENCE = Literal("SEQUENCE")
-SEQUENCE_OF = Literal("SEQUENCE OF")
+SEQUENCE_OF = Regex(r'SEQUENCE\s+OF')
 CHOICE = Literal("CHOICE")
 SET = Literal("SET")
 OF = Literal("OF")
@@ -163,7 +163,7 @@ BitStringType = Or([
 
 
 # 23.1
-OctetStringType = Literal("OCTET STRING").setParseAction(parse_OctetStringType)
+OctetStringType = Regex(r'OCTET\s+STRING').setParseAction(parse_OctetStringType)
 
 
 # 24.1
-- 
2.43.0


From 97f1e17ccc49bf7358e13627bb000df702d0bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:57 +0000
Subject: [PATCH 36/47] fix: values given as empty hstring or bstring are empty

---
 asn1PERser/classes/data/builtin/BitStringType.py   | 6 ++++++
 asn1PERser/classes/data/builtin/OctetStringType.py | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/BitStringType.py b/asn1PERser/classes/data/builtin/BitStringType.py
index 8b9b62a..d014f3a 100644
--- a/asn1PERser/classes/data/builtin/BitStringType.py
+++ b/asn1PERser/classes/data/builtin/BitStringType.py
@@ -16,5 +16,11 @@ class BitStringType(BitString):
         decoded = decode_bitstring(self, per_bytes)
         return decoded
 
+    @classmethod
+    def fromHexString(cls, value, internalFormat=False, prepend=None):
+        if not value:
+            return cls.fromBinaryString(value, internalFormat=internalFormat, prepend=prepend)
+        return super(BitStringType, cls).fromHexString(value, internalFormat=internalFormat, prepend=prepend)
+
     def to_dict(self, is_root=True):
         return int(self.asBinary(), 2)
diff --git a/asn1PERser/classes/data/builtin/OctetStringType.py b/asn1PERser/classes/data/builtin/OctetStringType.py
index 5f7577a..398977e 100644
--- a/asn1PERser/classes/data/builtin/OctetStringType.py
+++ b/asn1PERser/classes/data/builtin/OctetStringType.py
@@ -16,5 +16,9 @@ class OctetStringType(OctetString):
         decoded = decode_octetstring(self, per_bytes)
         return decoded
 
+    @staticmethod
+    def fromBinaryString(value):
+        return OctetString.fromBinaryString(value) if value else b''
+
     def to_dict(self, is_root=True):
         return ''.join(format(byte, '02x') for byte in self.asNumbers())
-- 
2.43.0


From 55db03b9b75a7553bddfdd44d2273bef0b6e3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:12 +0000
Subject: [PATCH 37/47] fix: names that are Python keywords give code that
 loads

---
 asn1PERser/classes/templates/__init__.py        | 10 ++++++++--
 asn1PERser/classes/types/builtin/DefinedType.py |  6 +++---
 asn1PERser/classes/types/type.py                |  4 ++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/asn1PERser/classes/templates/__init__.py b/asn1PERser/classes/templates/__init__.py
index 2ad4066..33a343d 100644
--- a/asn1PERser/classes/templates/__init__.py
+++ b/asn1PERser/classes/templates/__init__.py
@@ -1,14 +1,20 @@
+from keyword import iskeyword
 from .creator import template_filler
 
 
+def python_name(reference):
+    name = reference.replace('-', '_')
+    return name + '_' if iskeyword(name) else name
+
+
 class Template(object):
     def fill_template(self):
         return template_filler.fill('header')
 
     @property
     def template_class_name(self):
-        return self.identifier.replace('-','_') if self.identifier else self.typereference.replace('-','_')
+        return python_name(self.identifier if self.identifier else self.typereference)
 
     @property
     def template_field_type(self):
-        return self.typereference.replace('-','_') if self.typereference else self.identifier.replace('-','_')
+        return python_name(self.typereference if self.typereference else self.identifier)
diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index fc3df2b..3980c9d 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -13,8 +13,8 @@ class DefinedType(DefType):
 
         if self.identifier and self.typereference and not self.Value:  # Foo ::= Bar
             return template_filler.fill(asn_type='type_type', type_or_value='type',
-                                        identifier=self.identifier.replace('-', '_'),
-                                        typereference=self.typereference.replace('-', '_'))
+                                        identifier=self.template_class_name,
+                                        typereference=self.template_field_type)
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
             while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
@@ -24,7 +24,7 @@ class DefinedType(DefType):
             defined_type.Value = self.Value
             return template_filler.fill(asn_type='simple_value', type_or_value='value',
                                         valuereference=self.valuereference,
-                                        class_type=self.typereference.replace('-','_'),
+                                        class_type=self.template_field_type,
                                         value=defined_type.Value)
         if self.Value:
             defined_type.Value = self.Value
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 1d196af..64bf182 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -1,5 +1,5 @@
 from pyasn1.type.namedtype import NamedTypes
-from asn1PERser.classes.templates import Template
+from asn1PERser.classes.templates import Template, python_name
 from asn1PERser.classes.types.constraint import NoConstraint
 
 
@@ -46,7 +46,7 @@ class Type(Template):
 
     @valuereference.setter
     def valuereference(self, valuereference):
-        self._valuereference = valuereference.replace('-', '_')
+        self._valuereference = python_name(valuereference)
 
     @property
     def Value(self):
-- 
2.43.0


From 64f59043e084a2536d14262d732f5c37dd367023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:18 +0000
Subject: [PATCH 38/47] fix: DEFAULT and values given by reference or through
 type references are those of the schema

---
 asn1PERser/classes/module.py                     |  7 +++++++
 .../classes/types/builtin/BitStringType.py       | 10 ++++++----
 asn1PERser/classes/types/builtin/BooleanType.py  |  9 +++++----
 asn1PERser/classes/types/builtin/DefinedType.py  | 12 ++----------
 asn1PERser/classes/types/builtin/IntegerType.py  |  4 ++++
 .../classes/types/builtin/OctetStringType.py     | 10 ++++++----
 asn1PERser/classes/types/builtin/SequenceType.py | 16 +++++++---------
 7 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 79cc53f..fe15ef8 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -13,6 +13,13 @@ constants = {}
 already_filled_template = set()
 
 
+def resolve_type(typereference):
+    resolved_type = typereference_to_type[typereference]
+    while isinstance(resolved_type, DefType):
+        resolved_type = typereference_to_type[resolved_type.typereference]
+    return resolved_type
+
+
 class ModuleDefinition(Template):
     def __init__(self):
         self._ModuleIdentifier = ''
diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index f3b89f4..67c48ac 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -26,7 +27,8 @@ class BitStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
-        if value.endswith('B'):
-            return "binValue={}".format(value[:-1])
-        if value.endswith('H'):
-            return "hexValue={}".format(value[:-1])
+        if value.endswith("'B"):
+            return "binValue={}".format(''.join(value[:-1].split()))
+        if value.endswith("'H"):
+            return "hexValue={}".format(''.join(value[:-1].split()))
+        return python_name(value)
diff --git a/asn1PERser/classes/types/builtin/BooleanType.py b/asn1PERser/classes/types/builtin/BooleanType.py
index 71f74c0..7e85f24 100644
--- a/asn1PERser/classes/types/builtin/BooleanType.py
+++ b/asn1PERser/classes/types/builtin/BooleanType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -9,7 +10,7 @@ class BooleanType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
-        if isinstance(self.Value, bool):
+        if self.Value is not None:
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
                                         class_type=self.template_field_type)
@@ -23,6 +24,6 @@ class BooleanType(SimpleType):
         return ''
 
     def parse_value(self, value):
-        if value == 'TRUE':
-            return True
-        return False
+        if value in ('TRUE', 'FALSE'):
+            return value == 'TRUE'
+        return python_name(value)
diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index 3980c9d..0567b2c 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -1,5 +1,5 @@
 from ..type import DefType, SimpleType
-from asn1PERser.classes.module import typereference_to_type
+from asn1PERser.classes.module import typereference_to_type, resolve_type
 from asn1PERser.classes.templates.creator import template_filler
 
 
@@ -17,18 +17,10 @@ class DefinedType(DefType):
                                         typereference=self.template_field_type)
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
-            while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-                defined_type = typereference_to_type[defined_type.typereference]
-            defined_type.valuereference = self.valuereference
-            defined_type.typereference = self.typereference
-            defined_type.Value = self.Value
             return template_filler.fill(asn_type='simple_value', type_or_value='value',
                                         valuereference=self.valuereference,
                                         class_type=self.template_field_type,
-                                        value=defined_type.Value)
-        if self.Value:
-            defined_type.Value = self.Value
-            return defined_type.fill_template()
+                                        value=resolve_type(self.typereference).parse_value(self.Value))
         if defined_type.__class__.__name__ != self.__class__.__name__:
             return defined_type.fill_template()
         return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='type',
diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index 40c6107..0272a31 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -24,3 +25,6 @@ class IntegerType(SimpleType):
             already_filled_template.add(filled_template)
             return filled_template
         return ''
+
+    def parse_value(self, value):
+        return value if value.lstrip('-').isdigit() else python_name(value)
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index e1f1cdc..9482f5f 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -26,7 +27,8 @@ class OctetStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
-        if value.endswith('B'):
-            return "binValue={}".format(value[:-1])
-        if value.endswith('H'):
-            return "hexValue={}".format(value[:-1])
+        if value.endswith("'B"):
+            return "binValue={}".format(''.join(value[:-1].split()))
+        if value.endswith("'H"):
+            return "hexValue={}".format(''.join(value[:-1].split()))
+        return python_name(value)
diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 4013c19..ecb39fb 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -1,6 +1,6 @@
 from ..type import ComponentType
 from asn1PERser.classes.templates.creator import template_filler
-from asn1PERser.classes.module import already_filled_template, typereference_to_type, constants
+from asn1PERser.classes.module import already_filled_template, typereference_to_type, constants, resolve_type
 
 
 class SequenceType(ComponentType):
@@ -94,14 +94,12 @@ class SequenceType(ComponentType):
             named_type_properties['optional'] = True
         elif ComponentType.default is not None:
             named_type_properties['default'] = True
-            if ComponentType.default in constants.keys():
-                named_type_properties['is_constant'] = True;
-                named_type_properties['default_value'] = str(ComponentType.default)
-            else:
-                if ComponentType.typereference in typereference_to_type.keys():
-                    named_type_properties['default_value'] = typereference_to_type[ComponentType.typereference].parse_value(ComponentType.default)
-                else:
-                    named_type_properties['default_value'] = str(ComponentType.default)
+            default_value = ComponentType.default
+            if ComponentType.typereference in typereference_to_type.keys():
+                default_value = resolve_type(ComponentType.typereference).parse_value(default_value)
+                if default_value in constants.keys():
+                    named_type_properties['is_constant'] = constants[default_value].typereference == ComponentType.typereference
+            named_type_properties['default_value'] = str(default_value)
         else:
             pass
         return named_type_properties
-- 
2.43.0


From 1e245a9010b9c0283346f18892487ad0bf38a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:41 +0000
Subject: [PATCH 39/47] fix: constraint with extension additions, open
 endpoints or named endpoints has the bounds of the schema

---
 asn1PERser/classes/parse_actions.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 1f0a662..758f23f 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -1,5 +1,6 @@
 from copy import deepcopy
 from collections import namedtuple
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.types.builtin import SequenceType, DefinedType, \
     VisibleString, NumericString, IntegerType, DateType, RealType, BooleanType, \
     ChoiceType, EnumeratedType, IA5String, UTF8String, OctetStringType, \
@@ -179,11 +180,23 @@ def parse_EnumeratedType(toks):
 def parse_Constraint(toks):
     constraint = toks[0]
     if constraint[0] == 'SIZE':
+        if '...' in ' '.join(constraint[2:]):
+            return constraint[1]._replace(extensionMarker=True)
         return constraint[1]
     constraint = '(' + ' '.join(constraint) + ')'
     parsed = list(Constraint.parseString(constraint))
     ext_mark = False
     if '...' in parsed:
-        parsed.remove('...')
+        parsed = parsed[:parsed.index('...')]
         ext_mark = True
-    return constraint_tuple(lowerEndpoint=parsed[0], upperEndpoint=parsed[-1], extensionMarker=ext_mark)
+    return constraint_tuple(lowerEndpoint=_parse_endpoint(parsed[0], 1 if parsed[1:2] == ['<'] else 0),
+                            upperEndpoint=_parse_endpoint(parsed[-1], -1 if parsed[-2:-1] == ['<'] else 0),
+                            extensionMarker=ext_mark)
+
+
+def _parse_endpoint(endpoint, offset):
+    if endpoint in ('MIN', 'MAX'):
+        return endpoint
+    if endpoint.lstrip('-').isdigit():
+        return str(int(endpoint) + offset)
+    return 'int({}) + {}'.format(python_name(endpoint), offset) if offset else python_name(endpoint)
-- 
2.43.0


From 32d2307aa8d236375db5415b36565c9bb177c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 40/47] fix: ENUMERATED with numbers has the items and numbers
 of the schema

---
 .../classes/types/builtin/EnumeratedType.py   | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index b96cd3c..992c567 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -13,18 +14,30 @@ class EnumeratedType(SimpleType):
         root_named_values = []
         addition_named_values = []
         extension_marker_present = False
+        root_items = self.EnumerationItems
+        if '...' in self.EnumerationItems:
+            extension_marker_present = True
+            root_items = self.EnumerationItems[:self.EnumerationItems.index('...')]
+        # numbers not given in schema are the lowest free ones (X.680 20.3, 20.6)
+        used_indexes = {int(index) for item in root_items if isinstance(item, dict) for index in item}
         enumeration_index = 0
-        for EnumerationItem in self.EnumerationItems:
+        for item_index, EnumerationItem in enumerate(self.EnumerationItems):
             if EnumerationItem == '...':
-                extension_marker_present = True
                 continue
-            if not extension_marker_present:
-                root_named_values.append({'field_name': str(EnumerationItem).strip(),
-                                          'field_index': enumeration_index})
+            if isinstance(EnumerationItem, dict):
+                (number, field_name), = EnumerationItem.items()
+                field_index = int(number)
             else:
-                addition_named_values.append({'field_name': str(EnumerationItem).strip(),
-                                              'field_index': enumeration_index})
-            enumeration_index += 1
+                field_name = str(EnumerationItem).strip()
+                while enumeration_index in used_indexes:
+                    enumeration_index += 1
+                field_index = enumeration_index
+            used_indexes.add(field_index)
+            if item_index < len(root_items):
+                root_named_values.append({'field_name': field_name, 'field_index': field_index})
+            else:
+                addition_named_values.append({'field_name': field_name, 'field_index': field_index})
+                enumeration_index = max(enumeration_index, field_index)
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
                                                class_name=self.template_class_name,
                                                class_type=self.__class__.__name__,
@@ -50,7 +63,8 @@ class EnumeratedType(SimpleType):
             self._EnumerationItems.append({EnumerationItem[1]: EnumerationItem[0]})
 
     def parse_value(self, value):
-        return "'" + value + "'"
+        items = [list(item.values())[0] if isinstance(item, dict) else item for item in self.EnumerationItems]
+        return "'" + value + "'" if value in items else python_name(value)
 
     def __repr__(self):
         return '\n\t'.join([super(EnumeratedType, self).__repr__()] + \
-- 
2.43.0


From 6f258518926ca15a8a74c8c4b2063790f4ee1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:19 +0000
Subject: [PATCH 41/47] fix: components after second extension marker of a
 SEQUENCE are root components

---
 asn1PERser/classes/types/builtin/SequenceType.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index ecb39fb..35ad65e 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -17,6 +17,7 @@ class SequenceType(ComponentType):
         extension_addition_groups = []
         single_extension_group = []
         in_extension_addition_group = False
+        in_extension_additions = False
         extension_marker_present = False
         for ComponentType in self.ComponentTypeList:
             if ComponentType == '[[':
@@ -30,10 +31,11 @@ class SequenceType(ComponentType):
             if in_extension_addition_group:
                 single_extension_group.append(self._fill_named_types(ComponentType))
             if ComponentType == '...':
+                in_extension_additions = not in_extension_additions    # second marker ends extension additions
                 extension_marker_present = True
                 continue
             if not in_extension_addition_group:
-                if not extension_marker_present:
+                if not in_extension_additions:
                     root_named_types.append(self._fill_named_types(ComponentType))
                 else:
                     addition_named_types.append(self._fill_named_types(ComponentType))
-- 
2.43.0


From 30c4ab32e2d895ab9a82f7a2f0e72bedbbc3e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:35 +0000
Subject: [PATCH 42/47] fix: CHOICE alternatives after an extension addition
 group keep their place, version numbers are accepted

---
 asn1PERser/asn_definitions/type_def.py         | 2 +-
 asn1PERser/classes/types/builtin/ChoiceType.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index aa1d799..9b8ac47 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -173,7 +173,7 @@ NullType = NULL
 # 25.1
 VersionNumber = Or([
     empty,
-    number + COLON
+    (number + COLON).suppress()
 ])
 
 
diff --git a/asn1PERser/classes/types/builtin/ChoiceType.py b/asn1PERser/classes/types/builtin/ChoiceType.py
index 658a2f5..d39a1f7 100644
--- a/asn1PERser/classes/types/builtin/ChoiceType.py
+++ b/asn1PERser/classes/types/builtin/ChoiceType.py
@@ -35,6 +35,8 @@ class ChoiceType(ComponentType):
             if not in_extension_addition_group:
                 if not extension_marker_present:
                     root_alternatives_types.append(self._fill_named_types(AlternativeType))
+                elif extension_addition_groups:    # alternatives are numbered in order of the schema
+                    extension_addition_groups.append([self._fill_named_types(AlternativeType)])
                 else:
                     addition_alternatives_types.append(self._fill_named_types(AlternativeType))
             if AlternativeType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-- 
2.43.0


From bdec03ebbab37a2e97a6fe4f20980bc79559fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 43/47] fix: generated definitions come before their use

---
 asn1PERser/classes/module.py | 40 ++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index fe15ef8..ba77476 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -1,7 +1,7 @@
 import os
 import re
 import logging
-from asn1PERser.classes.templates import Template
+from asn1PERser.classes.templates import Template, python_name
 from asn1PERser.classes.types.type import SimpleType, ComponentType, DefType
 
 
@@ -65,7 +65,43 @@ class ModuleDefinition(Template):
                 component_type_assignments.append(assignment)
         component_type_assignments = self.sort_components(component_type_assignments)
         type_type_assignments, component_type_assignments = self.additional_sort(type_type_assignments, component_type_assignments)
-        return [] + value_assignments + simple_type_assignments + type_type_assignments + constant_assignments + component_type_assignments
+        return self.sort_definitions_before_use(value_assignments + simple_type_assignments + type_type_assignments +
+                                                constant_assignments + component_type_assignments)
+
+    def sort_definitions_before_use(self, assignments):
+        assignment_by_name = {self._get_defined_name(assignment): assignment for assignment in assignments}
+        visited_names = set()
+        new_order_assignments = []
+
+        def visit(assignment):
+            name = self._get_defined_name(assignment)
+            if name in visited_names:
+                return
+            visited_names.add(name)
+            for reference in self._get_references(assignment):
+                if reference in assignment_by_name:
+                    visit(assignment_by_name[reference])
+            new_order_assignments.append(assignment)
+
+        for assignment in assignments:
+            visit(assignment)
+        return new_order_assignments
+
+    def _get_defined_name(self, assignment):
+        return assignment.valuereference or assignment.template_class_name
+
+    def _get_references(self, component):
+        if isinstance(component, str):  # elipsis: ...
+            return []
+        references = re.findall(r'\w+', '{} {}'.format(component.constraint.lowerEndpoint,
+                                                       component.constraint.upperEndpoint))
+        references += [python_name(str(value)) for value in (component.Value, component.default)]
+        if isinstance(component, DefType):
+            references += [component.template_field_type]
+        elif isinstance(component, ComponentType):
+            for subcomponent in component:
+                references += self._get_references(subcomponent)
+        return references
 
     def sort_components(self, component_type_assignments):
         MAX_ITERATIONS = 100
-- 
2.43.0


From fdb6bb0a5325806e58d1d24afe182ebaec7c6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:22 +0000
Subject: [PATCH 44/47] fix: SEQUENCE OF keeps the constraint and structure of
 its component type

---
 .../templates/files/SequenceOfType.txt        |  5 ++++
 .../classes/types/builtin/SequenceOfType.py   | 26 +++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/asn1PERser/classes/templates/files/SequenceOfType.txt b/asn1PERser/classes/templates/files/SequenceOfType.txt
index f1c1cd7..afd9b8d 100644
--- a/asn1PERser/classes/templates/files/SequenceOfType.txt
+++ b/asn1PERser/classes/templates/files/SequenceOfType.txt
@@ -1,4 +1,9 @@
 class {{ class_name }}({{ class_type }}):
+{%- filter indent(width=4) %}
+{%- for template in subtemplates %}
+{{ template }}
+{%- endfor %}
+{%- endfilter %}
 {%- if constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
     subtypeSpec = SequenceOfValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}, extensionMarker=True)
 {%- elif constraint.lowerEndpoint and constraint.upperEndpoint %}
diff --git a/asn1PERser/classes/types/builtin/SequenceOfType.py b/asn1PERser/classes/types/builtin/SequenceOfType.py
index b698562..48dc9dc 100644
--- a/asn1PERser/classes/types/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/types/builtin/SequenceOfType.py
@@ -1,6 +1,6 @@
-from ..type import ComponentType
+from ..type import ComponentType, DefType
 from asn1PERser.classes.templates.creator import template_filler
-from asn1PERser.classes.module import already_filled_template
+from asn1PERser.classes.module import already_filled_template, resolve_type
 
 
 class SequenceOfType(ComponentType):
@@ -10,22 +10,32 @@ class SequenceOfType(ComponentType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
+        inner_defined_templates = []
+        subtypes_templates = []
+        field_type = self.ComponentType.template_field_type
+        if self.ComponentType.typereference in ['ChoiceType', 'SequenceType', 'EnumeratedType', 'SequenceOfType'] or \
+                self.ComponentType.is_constrained():
+            field_type = self.ComponentType.identifier = 'ComponentType'
+            inner_defined_templates, subtypes_template = self.ComponentType.fill_template(has_parent=True)
+            subtypes_templates.append(subtypes_template[:-2])    # remove 2 last new line characters
+        elif isinstance(self.ComponentType, DefType):
+            inner_defined_templates = [self.ComponentType]
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
                                                class_name=self.template_class_name,
                                                class_type=self.__class__.__name__,
-                                               field_type=self.ComponentType.template_field_type,
+                                               field_type=field_type,
+                                               subtemplates=subtypes_templates,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
                                                            'upperEndpoint': self.constraint.upperEndpoint})
         if has_parent:
-            return ([self.ComponentType], filled_template)
+            return (inner_defined_templates, filled_template)
         if filled_template in already_filled_template:
             return ''
         already_filled_template.add(filled_template)
-        if self.ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-            return filled_template
-        components_template = self.ComponentType.fill_template()
-        return components_template + filled_template
+        for defined_type in inner_defined_templates or []:
+            resolve_type(defined_type.typereference)
+        return filled_template
 
     @property
     def ComponentType(self):
-- 
2.43.0


From d19d3ccfed2fca26c1f827d18a42abfe3bfb7cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:23 +0000
Subject: [PATCH 45/47] fix: DEFAULT {} of a SEQUENCE OF component is a default

---
 asn1PERser/classes/parse_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 758f23f..9bd91e7 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -112,7 +112,7 @@ def parse_ComponentType(toks):
         if toks[2] == 'OPTIONAL':
             Type.optional = True
         if toks[2] == 'DEFAULT':
-            Type.default = toks[3]
+            Type.default = toks[3] if len(toks) > 3 else ''    # DEFAULT {}
     except IndexError:
         pass
     return Type
-- 
2.43.0


From 8a689bfd91d09f07a6f208c508fda7506ead78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:26 +0000
Subject: [PATCH 46/47] fix: constraints with bounds given by value reference
 can be used

---
 asn1PERser/classes/types/constraint.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 6a2d9a5..794efe7 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -6,6 +6,13 @@ MIN = float('-inf')
 MAX = float('inf')
 
 
+def as_number(endpoint):
+    """ endpoint can be given by value reference (IntegerType object) """
+    if endpoint == MIN or endpoint == MAX:
+        return endpoint
+    return int(endpoint)
+
+
 class NoConstraint(ConstraintsIntersection):
     def __init__(self):
         self.extensionMarker = False
@@ -44,6 +51,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
     OCTET STRING.
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+        lower_endpoint, upper_endpoint = as_number(lower_endpoint), as_number(upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # MIN of a SIZE is 0
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
@@ -52,6 +60,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
 
 class ValueRange(ValueRangeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+        lower_endpoint, upper_endpoint = as_number(lower_endpoint), as_number(upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
@@ -76,6 +85,7 @@ class SingleValue(SingleValueConstraint):
 
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+        lower_endpoint, upper_endpoint = as_number(lower_endpoint), as_number(upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # MIN of a SIZE is 0
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
-- 
2.43.0


From 2941ae39a23b891c47d9e19eb8412391e5046a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:26 +0000
Subject: [PATCH 47/47] fix: DEFAULT {} of a SEQUENCE OF component is the empty
 value

---
 asn1PERser/classes/types/builtin/SequenceType.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 35ad65e..591c788 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -101,6 +101,9 @@ class SequenceType(ComponentType):
                 default_value = resolve_type(ComponentType.typereference).parse_value(default_value)
                 if default_value in constants.keys():
                     named_type_properties['is_constant'] = constants[default_value].typereference == ComponentType.typereference
+            if default_value == '':    # DEFAULT {}
+                named_type_properties['is_constant'] = True
+                default_value = named_type_properties['field_type'] + '().clear()'
             named_type_properties['default_value'] = str(default_value)
         else:
             pass
-- 
2.43.0

