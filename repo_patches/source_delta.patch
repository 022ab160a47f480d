From 688dd071e44694dff57fb88f87567421b02b38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:21 +0000
Subject: [PATCH 01/26] fix: refuse tag data of another scheme's header with
 ConvertException

The header lookup raises KeyError, but ValueError was caught, so decoding
a tag with a foreign or missing header let a KeyError escape.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b2e0260..776e9c9 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -562,7 +562,7 @@ def parse_header_and_truncate_binary(
 
     try:
         scheme = header_to_schemes[header]
-    except ValueError:
+    except KeyError:
         raise ConvertException(message=f"{header} is not a valid header")
 
     _, size = scheme.value.split("-")
-- 
2.43.0


From 7df74c8f67f996dcd3684ef103a2ff132f54f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:45 +0000
Subject: [PATCH 02/26] fix: read element strings whose serial contains a
 parenthesised group

A serial such as "(12)" was split as if it were another application
identifier, and unpacking the parts raised ValueError.
---
 epcpy/epc_schemes/lgtin.py | 2 +-
 epcpy/epc_schemes/sgln.py  | 2 +-
 epcpy/epc_schemes/sgtin.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/lgtin.py b/epcpy/epc_schemes/lgtin.py
index 4c29723..610664c 100644
--- a/epcpy/epc_schemes/lgtin.py
+++ b/epcpy/epc_schemes/lgtin.py
@@ -141,7 +141,7 @@ class LGTIN(GS1Keyed):
                 message=f"Invalid LGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index cccc48c..b028202 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -192,7 +192,7 @@ class SGLN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGLN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 37aee79..eb18597 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -255,7 +255,7 @@ class SGTIN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
-- 
2.43.0


From 94954e5b42073134f14c5906cf0ce255e3eabe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:48 +0000
Subject: [PATCH 03/26] fix: keep the part of a GIAI asset reference after a
 colon

Only the text up to the first colon was used for the key, the element
string and the tag encodings.
---
 epcpy/epc_schemes/giai.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 0e7dc5f..98fedf8 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -194,7 +194,7 @@ class GIAI(TagEncodable, GS1Keyed):
         if not GIAI_URI_REGEX.fullmatch(epc_uri):
             raise ConvertException(message=f"Invalid GIAI URI {epc_uri}")
 
-        company_prefix, *asset_reference = epc_uri.split(":")[4].split(".")
+        company_prefix, *asset_reference = ":".join(epc_uri.split(":")[4:]).split(".")
         asset_reference = ".".join(asset_reference)
 
         if (
-- 
2.43.0


From 451b96898ef607a7f00007f2b6cd55c7b366676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:51 +0000
Subject: [PATCH 04/26] fix: look for ADI string terminators at character
 boundaries only

Six zero bits spanning two characters were taken for the terminator, so
for example a part number ending in 0 or P decoded to another EPC. Both
terminators are now required, and memory after the second is ignored.
---
 epcpy/epc_schemes/adi.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/epcpy/epc_schemes/adi.py b/epcpy/epc_schemes/adi.py
index 5831370..15fbe7a 100644
--- a/epcpy/epc_schemes/adi.py
+++ b/epcpy/epc_schemes/adi.py
@@ -200,15 +200,16 @@ class ADI(TagEncodable):
         filter_binary = truncated_binary[8:14]
         cage_code_binary = truncated_binary[14:50]
 
-        if not re.match(".*([0]{6})+.*", truncated_binary[50:]):
+        chars = re.findall("[0-1]{6}", truncated_binary[50:])
+        if chars.count("000000") < 2:
             raise ConvertException(
                 message="Invalid binary for ADI, missing 6-bit terminators"
             )
 
-        part_number_binary, _, *serial_binary = re.split(
-            "([0]{6})", truncated_binary[50:]
-        )
-        serial_binary_trimmed = "".join(serial_binary)[:-6]
+        part_number_end = chars.index("000000")
+        serial_end = chars.index("000000", part_number_end + 1)
+        part_number_binary = "".join(chars[:part_number_end])
+        serial_binary_trimmed = "".join(chars[part_number_end + 1 : serial_end])
 
         filter_string = binary_to_int(filter_binary)
         cage_code_string = decode_cage_code_six_bits(cage_code_binary)
-- 
2.43.0


From 2aecdb3bc2286b4b389d798a8611c26fcfb0a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:06 +0000
Subject: [PATCH 05/26] fix: refuse to encode an EPC that the coding scheme
 cannot hold

Only tag_uri checked the limits of the coding scheme. The binary, hex and
base64 forms of an EPC that does not fit were too long, lost leading zeros
or raised ValueError.
---
 epcpy/epc_schemes/cpi.py   | 3 +++
 epcpy/epc_schemes/gdti.py  | 3 +++
 epcpy/epc_schemes/giai.py  | 3 +++
 epcpy/epc_schemes/grai.py  | 3 +++
 epcpy/epc_schemes/itip.py  | 3 +++
 epcpy/epc_schemes/sgln.py  | 3 +++
 epcpy/epc_schemes/sgtin.py | 3 +++
 7 files changed, 21 insertions(+)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index a381313..bb32f56 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -304,6 +304,9 @@ class CPI(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Raises if this EPC does not fit in the coding scheme
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._cp_ref]
         serial = self._serial
 
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index 218df08..d2e3efc 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -248,6 +248,9 @@ class GDTI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if this EPC does not fit in the coding scheme
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._doc_type]
 
         header = GDTI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 98fedf8..96bd06b 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -308,6 +308,9 @@ class GIAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if this EPC does not fit in the coding scheme
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         header = GIAI.BinaryHeader[binary_coding_scheme.name].value
         filter_binary = str_to_binary(filter_value.value, 3)
         parts = [self._company_pref, self._asset_ref]
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 7b24302..83ea3f7 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -243,6 +243,9 @@ class GRAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if this EPC does not fit in the coding scheme
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._asset_type]
 
         header = GRAI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 075ba55..f00cf4a 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -244,6 +244,9 @@ class ITIP(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Raises if this EPC does not fit in the coding scheme
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._item_ref]
 
         header = ITIP.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index b028202..bc565b9 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -243,6 +243,9 @@ class SGLN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if this EPC does not fit in the coding scheme
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._location_ref]
 
         header = SGLN.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index eb18597..3320ae9 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -307,6 +307,9 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if this EPC does not fit in the coding scheme
+        self.tag_uri(binary_coding_scheme, filter_value)
+
         parts = [self._company_pref, self._item_ref]
 
         header = SGTIN.BinaryHeader[binary_coding_scheme.name].value
-- 
2.43.0


From 7b15c14c2133e232f9821af2a2edf6f0562650ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:27 +0000
Subject: [PATCH 06/26] fix: encode ITIP piece and total number 99

The largest value of a fixed width integer was refused, although it is
accepted in the URI and by the decoder.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 776e9c9..b19ebed 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -415,7 +415,7 @@ def encode_fixed_width_integer(string: str, bit_count: int) -> str:
     Returns:
         str: Encoded fixed width integer string
     """
-    if int(string) >= (pow(10, int(bit_count * log(2) / log(10))) - 1):
+    if int(string) > (pow(10, int(bit_count * log(2) / log(10))) - 1):
         raise ConvertException(message="Fixed width numeric integer too large")
 
     return str_to_binary(string, bit_count)
-- 
2.43.0


From bd1903134f8ff074293e4d556b02d52bc9de6821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:29 +0000
Subject: [PATCH 07/26] fix: count an escaped character as one character in
 length limits

GRAI, GDTI, GIAI and CPI counted "%2F" as three characters and refused
valid EPCs.
---
 epcpy/epc_schemes/cpi.py  | 2 +-
 epcpy/epc_schemes/gdti.py | 2 +-
 epcpy/epc_schemes/giai.py | 2 +-
 epcpy/epc_schemes/grai.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index bb32f56..2dd33c2 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -211,7 +211,7 @@ class CPI(GS1Element, TagEncodable):
         )
 
         if (
-            len("".join([self._company_pref, self._cp_ref])) > 30
+            len("".join([self._company_pref, replace_cpi_escapes(self._cp_ref)])) > 30
             or len(self._serial) > 12
             or not (6 <= len(self._company_pref) <= 12)
         ):
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index d2e3efc..b1c33c6 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -142,7 +142,7 @@ class GDTI(TagEncodable, GS1Keyed):
 
         if (
             len(f"{self._company_pref}{self._doc_type}") != 12
-            or len(self._serial) > 17
+            or len(replace_uri_escapes(self._serial)) > 17
             or not (6 <= len(self._company_pref) <= 12)
         ):
             raise ConvertException(
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 96bd06b..0167120 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -199,7 +199,7 @@ class GIAI(TagEncodable, GS1Keyed):
 
         if (
             not (6 <= len(company_prefix) <= 12)
-            or len(f"{company_prefix}{asset_reference}") > 30
+            or len(f"{company_prefix}{replace_uri_escapes(asset_reference)}") > 30
         ):
             raise ConvertException(
                 message=f"Invalid company prefix length {len(company_prefix)}"
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 83ea3f7..26897dd 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -143,7 +143,7 @@ class GRAI(TagEncodable, GS1Keyed):
         if (
             len(f"{self._company_pref}{self._asset_type}") != 12
             or not (6 <= len(self._company_pref) <= 12)
-            or len(self._serial) > 16
+            or len(replace_uri_escapes(self._serial)) > 16
         ):
             raise ConvertException(message=f"Invalid EPC URI {epc_uri}")
 
-- 
2.43.0


From e4158f387dd4eb8a54704f44d0dc709f244badc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:32 +0000
Subject: [PATCH 08/26] fix: require two digits each for ITIP piece and total

Only the sum of the component lengths was checked, so other splits of the
same digits were accepted and encoded as a different EPC.
---
 epcpy/epc_schemes/itip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index f00cf4a..cc05121 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -148,7 +148,9 @@ class ITIP(GS1Element, TagEncodable):
         verify_gs3a3_component(self._serial)
 
         if (
-            len(f"{self._company_pref}{self._item_ref}{self._piece}{self._total}") != 17
+            len(f"{self._company_pref}{self._item_ref}") != 13
+            or len(self._piece) != 2
+            or len(self._total) != 2
             or not (1 <= len(replace_uri_escapes(self._serial)) <= 20)
             or not (6 <= len(self._company_pref) <= 12)
         ):
-- 
2.43.0


From 5e232ed8da1787be2e2ab07dcc389602470cb86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:35 +0000
Subject: [PATCH 09/26] fix: check the UPUI company prefix length

Any length was accepted, and an empty item reference raised IndexError
when the element string was built.
---
 epcpy/epc_schemes/upui.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/epcpy/epc_schemes/upui.py b/epcpy/epc_schemes/upui.py
index 1578323..840272b 100644
--- a/epcpy/epc_schemes/upui.py
+++ b/epcpy/epc_schemes/upui.py
@@ -50,6 +50,11 @@ class UPUI(GS1Element):
         if not (1 <= len(self._tpx) <= 28):
             raise ConvertException(message=f"Incorrect TPX size")
 
+        if not (6 <= len(self._company_pref) <= 12):
+            raise ConvertException(
+                message=f"Invalid company prefix length {len(self._company_pref)}"
+            )
+
         if len(f"{self._company_pref}{self._item_ref}") != 13:
             raise ConvertException(
                 message=f"Wrong company prefix + item ref size (!=13)"
-- 
2.43.0


From 3296f59d0e731f74217be73a0ca113bb6d449f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:38 +0000
Subject: [PATCH 10/26] fix: accept ASCII digits only

"\d" also matches the decimal digits of other scripts, which are not
part of any EPC and broke later conversions.
---
 epcpy/utils/regex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index cda91f4..aba32f9 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,14 +1,14 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
-NUMERIC_COMPONENT = "(0|[1-9]\d*)"
+NUMERIC_COMPONENT = "(0|[1-9][0-9]*)"
 GS3A3_CHAR = "((%[0-9a-fA-F])|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
-PADDED_NUMERIC_COMPONENT = "\d+"
-PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
+PADDED_NUMERIC_COMPONENT = "[0-9]+"
+PADDED_NUMERIC_COMPONENT_OR_EMPTY = "[0-9]*"
 VERIFY_GS3A3_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]+"
 GS1_ELEM_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]"
 GS1_ELEM_CHARS_CPI = "[0-9A-Z\/\-\#]"
-DIGIT = "\d"
+DIGIT = "[0-9]"
 
 FOUR_PADDED_NUMERIC_COMPONENTS = f"{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}"
 
-- 
2.43.0


From 084813577b84b30e0f3e1ee18b312b4ec2f3468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:58 +0000
Subject: [PATCH 11/26] fix: accept escapes with a hexadecimal letter at the
 start of a serial

The check only recognised escapes of two decimal digits. A component that
starts with %2F, %3C, %3E or %3F was refused, and one with such an escape
after another escape raised ValueError.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b19ebed..3c12835 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -506,7 +506,7 @@ def verify_gs3a3_component(gs3a3_component: str):
         ConvertException: Component not valid
     """
     res = ""
-    for g in re.split("(%\d\d)", gs3a3_component):
+    for g in re.split("(%[0-9a-fA-F]{2})", gs3a3_component):
         if len(g) == 0:
             continue
         elif g[0] != "%":
-- 
2.43.0


From a329bb4923ff45e8a274415968a26d2f1f4d97f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:01 +0000
Subject: [PATCH 12/26] fix: accept only the escapes that a GS1 serial may
 contain

A percent sign followed by one hexadecimal digit was enough, so truncated
escapes and escapes of characters that must not be escaped were accepted.
---
 epcpy/utils/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index aba32f9..49db351 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,7 +1,7 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
 NUMERIC_COMPONENT = "(0|[1-9][0-9]*)"
-GS3A3_CHAR = "((%[0-9a-fA-F])|([a-zA-Z0-9!'()*+,-.:;=_]))"
+GS3A3_CHAR = "((%(22|25|26|2[fF]|3[cC]|3[eE]|3[fF]))|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
 PADDED_NUMERIC_COMPONENT = "[0-9]+"
 PADDED_NUMERIC_COMPONENT_OR_EMPTY = "[0-9]*"
-- 
2.43.0


From dbd9c6e1ace576a29771f12b9c0cd72a07b9e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:04 +0000
Subject: [PATCH 13/26] fix: unescape escapes written with lower case
 hexadecimal digits

Such escapes are accepted in a URI, but were copied into keys and element
strings as they are.
---
 epcpy/utils/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 3c12835..8b73fcb 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -41,9 +41,13 @@ def replace_uri_escapes(uri: str) -> str:
         uri.replace("%22", '"')
         .replace("%26", "&")
         .replace("%2F", "/")
+        .replace("%2f", "/")
         .replace("%3C", "<")
+        .replace("%3c", "<")
         .replace("%3E", ">")
+        .replace("%3e", ">")
         .replace("%3F", "?")
+        .replace("%3f", "?")
         .replace("%25", "%")
     )
 
-- 
2.43.0


From bfd0846089f3bb9679a7faa07f7f02058d06ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:08 +0000
Subject: [PATCH 14/26] fix: pass positional arguments of hex and base64 on to
 binary

hex(...) and base64(...) accept the arguments of binary(...), but dropped
the positional ones.
---
 epcpy/epc_schemes/base_scheme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index c951c98..dc2322c 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -109,7 +109,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The hexadecimal representation.
         """
-        binary = self.binary(**kwargs)
+        binary = self.binary(*args, **kwargs)
 
         padding = (16 - (len(binary) % 16)) % 16
         padded_binary = f"{binary:<0{len(binary) + padding}}"
@@ -122,7 +122,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The base64 representation.
         """
-        hex_string = self.hex(**kwargs)
+        hex_string = self.hex(*args, **kwargs)
 
         return hex_to_base64(hex_string)
 
-- 
2.43.0


From 52b2d4e900f2e5cdd79ec7ebe95f3782e5b601b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:51 +0000
Subject: [PATCH 15/26] fix: refuse an ADI tag with a null character in the
 CAGE code

A null in the sixth position was dropped, so the tag decoded to the EPC of
a different five character code.
---
 epcpy/utils/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 8b73fcb..c6cb1b3 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -482,6 +482,9 @@ def decode_cage_code_six_bits(binary: str) -> str:
     if binary.startswith("100000"):
         binary = binary[6:]
 
+    if "000000" in re.findall("[0-1]{6}", binary):
+        raise ConvertException(message="Invalid CAGE code or DoDAAC")
+
     return decode_string_six_bits(binary, 6)
 
 
-- 
2.43.0


From 161052ab2c4a9cfdb71a7f76554b2f8bded2c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:54 +0000
Subject: [PATCH 16/26] fix: refuse text that is not binary, hexadecimal or
 base64

ValueError and binascii.Error escaped from the decoders, and texts that
int() tolerates, such as "_" and spaces, were accepted as tag data.
---
 epcpy/utils/common.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index c6cb1b3..17850d2 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -91,10 +91,16 @@ def binary_to_int(binary: str) -> int:
     Args:
         binary (str): Binary string
 
+    Raises:
+        ConvertException: Invalid binary string
+
     Returns:
         int: Integer value of binary string
     """
-    return int(binary, 2)
+    try:
+        return int(binary, 2)
+    except ValueError:
+        raise ConvertException(message=f"Invalid binary string {binary}")
 
 
 def str_to_binary(string: str, num_bits: int) -> str:
@@ -116,11 +122,17 @@ def base64_to_hex(base64_string: str) -> str:
     Args:
         base64_string (str): Base64 string
 
+    Raises:
+        ConvertException: Invalid base64 string
+
     Returns:
         str: Hexadecimal representation
     """
     # Add padding to ensure valid padding
-    return base64.b64decode(f"{base64_string}==").hex()
+    try:
+        return base64.b64decode(f"{base64_string}==").hex()
+    except ValueError:
+        raise ConvertException(message=f"Invalid base64 string {base64_string}")
 
 
 def hex_to_base64(hex_string: str) -> str:
@@ -141,9 +153,15 @@ def hex_to_binary(hex_string: str) -> str:
     Args:
         hex_string (str): Hexadecimal string
 
+    Raises:
+        ConvertException: Invalid hexadecimal string
+
     Returns:
         str: Binary string
     """
+    if not re.fullmatch("[0-9a-fA-F]+", hex_string):
+        raise ConvertException(message=f"Invalid hexadecimal string {hex_string}")
+
     return f"{int(hex_string, 16):0{len(hex_string * 4)}b}"
 
 
@@ -559,12 +577,16 @@ def parse_header_and_truncate_binary(
         header_to_schemes (Dict[str, str]): Mapping from binary headers to schemes
 
     Raises:
+        ConvertException: Invalid binary string
         ConvertException: Invalid binary header
         ConvertException: Binary string too short
 
     Returns:
         Tuple[Enum, str]: Scheme and truncated binary
     """
+    if not re.fullmatch("[0-1]+", binary_string):
+        raise ConvertException(message=f"Invalid binary string {binary_string}")
+
     header = binary_string[:8]
 
     try:
-- 
2.43.0


From e3b41010f584305277b856a99f5b7873480f56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:57 +0000
Subject: [PATCH 17/26] fix: refuse text with fewer than four colon separated
 parts

The generic URI and tag URI parsers raised IndexError for it.
---
 epcpy/utils/parsers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/parsers.py b/epcpy/utils/parsers.py
index 4318b70..bb089fe 100644
--- a/epcpy/utils/parsers.py
+++ b/epcpy/utils/parsers.py
@@ -148,7 +148,7 @@ def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
     Returns:
         EPCScheme: EPCScheme instance for this URI
     """
-    identifier = epc_pure_identity_uri.split(":")[3]
+    identifier = "".join(epc_pure_identity_uri.split(":")[3:4])
 
     if identifier not in EPC_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown EPC URI")
@@ -317,7 +317,7 @@ def tag_uri_to_tag_encodable(epc_tag_uri: str) -> TagEncodable:
     Returns:
         TagEncodable: TagEncodable class for this tag URI
     """
-    identifier = epc_tag_uri.split(":")[3].split("-")[0]
+    identifier = "".join(epc_tag_uri.split(":")[3:4]).split("-")[0]
 
     if identifier not in TAG_ENCODABLE_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown TagEncodable scheme identifier")
-- 
2.43.0


From da5622c688b17deb52815b2d4e498207dc455c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:36 +0000
Subject: [PATCH 18/26] fix: refuse a variable length CPI tag without
 terminator or full serial

A truncated tag decoded to an EPC with an invented serial.
---
 epcpy/epc_schemes/cpi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index 2dd33c2..ffaae79 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -367,7 +367,12 @@ class CPI(GS1Element, TagEncodable):
                 if g == "000000":
                     is_serial = True
 
-            serial_binary = serial_binary[:40] if len(serial_binary) > 0 else "0"
+            if len(serial_binary) < 40:
+                raise ConvertException(
+                    message="Invalid binary for CPI, missing terminator or serial"
+                )
+
+            serial_binary = serial_binary[:40]
 
         filter_string = binary_to_int(filter_binary)
         serial_string = binary_to_int(serial_binary)
-- 
2.43.0


From a6c4304199059acff5dca67ed4809ac1618a45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:40 +0000
Subject: [PATCH 19/26] fix: refuse a CPI-96 tag whose part reference has too
 many digits

Such a tag decoded to an EPC that cannot be encoded as CPI-96.
---
 epcpy/utils/common.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 17850d2..3af2810 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -373,16 +373,15 @@ def decode_partition_table(
     else:
         D = str(binary_to_int(D_bin)) if partition["K"] != 0 else ""
 
-    compare_D = not (
-        unpadded_partition or string_partition or six_bit_variable_partition
-    )
+    compare_D = not (string_partition or six_bit_variable_partition)
+    pad_D = compare_D and not unpadded_partition
 
     if not C < pow(10, partition["L"]):
         raise ConvertException(message=f"Company prefix length too large")
     if D != "" and compare_D and not int(D) < pow(10, partition["K"]):
         raise ConvertException(message=f"Item reference length too large")
 
-    return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if compare_D else 0}}"
+    return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if pad_D else 0}}"
 
 
 def encode_numeric_string(string: str, bit_count: int) -> str:
-- 
2.43.0


From 6a7af0d779c44cf39efd8ebc0089e73b852e2b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:43 +0000
Subject: [PATCH 20/26] fix: match the whole tag URI

Text after a GID tag URI was ignored when it followed a colon.
---
 epcpy/epc_schemes/base_scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index dc2322c..d3249bf 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -183,7 +183,7 @@ class TagEncodable(EPCScheme):
         Returns:
             TagEncodable: Instance of TagEncodable class
         """
-        if not TagEncodable.TAG_URI_REGEX.match(epc_tag_uri):
+        if not TagEncodable.TAG_URI_REGEX.fullmatch(epc_tag_uri):
             raise ConvertException(message=f"Invalid EPC tag URI {epc_tag_uri}")
 
         epc_scheme = epc_tag_uri.split(":")[3]
-- 
2.43.0


From 3264dfdb94f6292ab1ebf919bbc2a5a300d05558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:07 +0000
Subject: [PATCH 21/26] fix: refuse a tag with a character after the end of its
 serial

Null characters inside the serial were skipped, so different tags decoded
to the same EPC.
---
 epcpy/utils/common.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 3af2810..d099973 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -279,14 +279,21 @@ def decode_string(binary: str) -> str:
     Args:
         binary (str): Binary string to decode
 
+    Raises:
+        ConvertException: Character after the end of the string
+
     Returns:
         str: Decoded string
     """
+    chars = re.findall("." * 7, binary)
+    if "0000000" in chars and "1" in "".join(chars[chars.index("0000000") :]):
+        raise ConvertException(message="Character after the end of the string")
+
     return "".join(
         list(
             map(
                 decode_binary_char,
-                re.findall("." * 7, binary),
+                chars,
             )
         )
     )
-- 
2.43.0


From 1966ac651b8532258b5449dc1d83b6683412e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:10 +0000
Subject: [PATCH 22/26] fix: refuse a USDOD tag with a space inside the CAGE
 code

Every space was dropped instead of only the leading fill character.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index d099973..311f9b3 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -479,7 +479,7 @@ def decode_cage_code(binary: str) -> str:
     """
     return "".join(
         [chr(int(g, 2)) if g != "" else "" for g in re.split("([0-1]{8})", binary)]
-    ).replace(" ", "")
+    ).lstrip(" ")
 
 
 def encode_cage_code(chars: str) -> str:
-- 
2.43.0


From 29a45e43a9c2b711a587ed32a53b55b188a47774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:12 +0000
Subject: [PATCH 23/26] fix: refuse a percent sign in six bit strings

The characters "%2F" on a tag were taken for an escaped slash.
---
 epcpy/utils/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 311f9b3..845b6a7 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -208,6 +208,7 @@ def decode_string_six_bits(binary: str, max_chars: int) -> str:
 
     Raises:
         ConvertException: Resulting string too large
+        ConvertException: Resulting string contains an invalid character
 
     Returns:
         str: Decoded string
@@ -226,6 +227,9 @@ def decode_string_six_bits(binary: str, max_chars: int) -> str:
     if len(res) > max_chars:
         raise ConvertException(message="Too many characters decoded!")
 
+    if "%" in res:
+        raise ConvertException(message="Invalid character decoded!")
+
     return res.replace("#", "%23").replace("/", "%2F")
 
 
-- 
2.43.0


From d43af4805968a71c9ae902ad7d4ff00e7a319e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:39 +0000
Subject: [PATCH 24/26] fix: refuse very long GID and USDOD numbers with
 ConvertException

Python refuses to convert numbers of more than 4300 digits, and that
ValueError escaped.
---
 epcpy/epc_schemes/gid.py   | 10 ++++++----
 epcpy/epc_schemes/usdod.py |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/gid.py b/epcpy/epc_schemes/gid.py
index c5daa6f..02a9216 100644
--- a/epcpy/epc_schemes/gid.py
+++ b/epcpy/epc_schemes/gid.py
@@ -49,14 +49,16 @@ class GID(TagEncodable):
 
         self._manager, self._object, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._manager) >= pow(2, 28):
+        if len(self._manager) > 9 or int(self._manager) >= pow(2, 28):
             raise ConvertException(message=f"Manager out of range: (max: {pow(2, 28)})")
 
-        if int(self._object) >= pow(2, 24):
+        if len(self._object) > 8 or int(self._object) >= pow(2, 24):
             raise ConvertException(message=f"Object out of range: (max: {pow(2, 24)})")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
diff --git a/epcpy/epc_schemes/usdod.py b/epcpy/epc_schemes/usdod.py
index 119cd5f..a3aabb6 100644
--- a/epcpy/epc_schemes/usdod.py
+++ b/epcpy/epc_schemes/usdod.py
@@ -70,8 +70,10 @@ class USDOD(TagEncodable):
 
         self._cage_dodaac, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
-- 
2.43.0


From 7aa721337410b919f8495deee18cd413a5cdb28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:29 +0000
Subject: [PATCH 25/26] fix: refuse GIAI and GINC element strings whose company
 prefix is not digits

A prefix length reaching past a leading run of six digits moved the split
to a dot in the reference and returned an EPC of another company prefix.
---
 epcpy/epc_schemes/giai.py | 5 +++++
 epcpy/epc_schemes/ginc.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 0167120..7b0a585 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -254,6 +254,11 @@ class GIAI(TagEncodable, GS1Keyed):
         chars = gs1_element_string[6 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
+        if not digits.isdigit():
+            raise ConvertException(
+                message=f"Invalid company prefix in GS1 element string {gs1_element_string}"
+            )
+
         return cls(f"urn:epc:id:giai:{digits}.{chars}")
 
     def tag_uri(
diff --git a/epcpy/epc_schemes/ginc.py b/epcpy/epc_schemes/ginc.py
index 175ef3d..718f059 100644
--- a/epcpy/epc_schemes/ginc.py
+++ b/epcpy/epc_schemes/ginc.py
@@ -102,4 +102,9 @@ class GINC(GS1Keyed):
         chars = gs1_element_string[5 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
+        if not digits.isdigit():
+            raise ConvertException(
+                message=f"Invalid company prefix in GS1 element string {gs1_element_string}"
+            )
+
         return cls(f"urn:epc:id:ginc:{digits}.{chars}")
-- 
2.43.0


From a8862cf5285c6c4d7787b2403b57083e1b77847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:49:04 +0000
Subject: [PATCH 26/26] fix: refuse base64 text with characters that are not
 base64

---
 epcpy/utils/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 845b6a7..e1c79d4 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -128,6 +128,10 @@ def base64_to_hex(base64_string: str) -> str:
     Returns:
         str: Hexadecimal representation
     """
+    # The decoder skips characters that are not base64 instead of refusing them
+    if not re.fullmatch("(?a)[A-Za-z0-9+/\\s]*[=\\s]*", base64_string):
+        raise ConvertException(message=f"Invalid base64 string {base64_string}")
+
     # Add padding to ensure valid padding
     try:
         return base64.b64decode(f"{base64_string}==").hex()
-- 
2.43.0

