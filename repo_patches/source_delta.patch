From 4dfcac08a06245d3a910b0a3f341c42a208a3f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 01/35] verif: add guarded lr-tap and flush-tap observation
 hooks (WELL_ID_DLISWRITER_VERIF=1)

---
 src/dliswriter/file/writer.py                   |  4 ++++
 .../core/logical_record/logical_record_bytes.py |  4 ++++
 src/dliswriter/utils/internal/verif_hooks.py    | 17 +++++++++++++++++
 3 files changed, 25 insertions(+)
 create mode 100644 src/dliswriter/utils/internal/verif_hooks.py

diff --git a/src/dliswriter/file/writer.py b/src/dliswriter/file/writer.py
index b1f6bfe..651756d 100644
--- a/src/dliswriter/file/writer.py
+++ b/src/dliswriter/file/writer.py
@@ -5,6 +5,7 @@ from pathlib import Path
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 from dliswriter.utils.internal.types import file_name_type, number_type, bytes_type
+from dliswriter.utils.internal import verif_hooks
 from dliswriter.logical_record.misc import StorageUnitLabel
 
 logger = logging.getLogger(__name__)
@@ -56,6 +57,9 @@ class ByteWriter:
         self._append = True  # in the future calls, append bytes to the file
         self._total_size += (size or len(bts))
 
+        if verif_hooks.ENABLED:
+            verif_hooks.report(verif_hooks.flush_sinks, self._filename, self._total_size)
+
 
 class BufferedOutput:
     """Provide an automatised buffered interface for storing bytes into a file.
diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index b365f5c..c5fe022 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -3,6 +3,7 @@ from typing import Optional, Generator
 
 from dliswriter.logical_record.core.logical_record.segment_attributes import SegmentAttributes
 from dliswriter.utils.internal.internal_enums import RepresentationCode as RepC
+from dliswriter.utils.internal import verif_hooks
 
 
 logger = logging.getLogger(__name__)
@@ -107,6 +108,9 @@ class LogicalRecordBytes:
             bytes   :   Bytes of a logical record segment, including an added header.
         """
 
+        if verif_hooks.ENABLED:
+            verif_hooks.report(verif_hooks.lr_sinks, self._is_eflr, self._lr_type_struct, bytes(self._bts))
+
         start_pos = 0  # start from the beginning of the logical record bytes
         remaining_size = self._size  # all bytes will be processed; self._size is assumed to always be >=12
 
diff --git a/src/dliswriter/utils/internal/verif_hooks.py b/src/dliswriter/utils/internal/verif_hooks.py
new file mode 100644
index 0000000..af2dd21
--- /dev/null
+++ b/src/dliswriter/utils/internal/verif_hooks.py
@@ -0,0 +1,17 @@
+"""Observation hooks for external verification of the writer. Inactive unless WELL_ID_DLISWRITER_VERIF=1 is set."""
+
+import os
+from typing import Any, Callable
+
+
+ENABLED: bool = os.environ.get('WELL_ID_DLISWRITER_VERIF', '') == '1'
+
+lr_sinks: list[Callable] = []       #: called with (is_eflr, type byte, body bytes) when segmentation of a record starts
+flush_sinks: list[Callable] = []    #: called with (file name, total size so far) after each physical write
+
+
+def report(sinks: list[Callable], *args: Any) -> None:
+    """Pass the arguments to all registered sinks."""
+
+    for sink in sinks:
+        sink(*args)
-- 
2.43.0


From c7c71689a94c88d28f79f92a985ccfece16f5e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 02/35] fix: encode IDENT and UNITS with a one-byte length and
 reject names longer than 255 characters

---
 .../core/attribute/attribute.py               |  6 ++---
 .../logical_record/core/eflr/eflr_set.py      |  6 ++---
 .../logical_record/eflr_types/file_header.py  |  6 ++---
 .../utils/internal/struct_writer.py           | 22 ++++++++++++++++---
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 185e7b8..933f1c5 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -1,7 +1,7 @@
 from typing import Union, Any, TYPE_CHECKING, Callable, Optional
 import logging
 
-from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ascii, write_struct_uvari
+from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ident, write_struct_uvari
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 from dliswriter.utils.enums import Unit
 from dliswriter.utils.internal.converters import ReprCodeConverter
@@ -218,7 +218,7 @@ class Attribute:
         """Transform the attribute to bytes and characteristics needed for an EFLRSet template."""
 
         if self._label:
-            bts += write_struct_ascii(self._label)
+            bts += write_struct_ident(self._label)
             characteristics += '1'
         else:
             characteristics += '0'
@@ -258,7 +258,7 @@ class Attribute:
 
         # units
         if self._units:
-            bts += write_struct_ascii(self._units)
+            bts += write_struct_ident(self._units)
             characteristics += '1'
         else:
             characteristics += '0'
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 4cb5d69..0fc8543 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Optional
 
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
@@ -29,7 +29,7 @@ class EFLRSet(LogicalRecord):
         super().__init__()
 
         self.set_name = set_name
-        self._set_type_struct = write_struct_ascii(self.set_type)  # used in the header
+        self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
@@ -41,7 +41,7 @@ class EFLRSet(LogicalRecord):
         """Create bytes describing the set of this EFLR, using set type (class attr) and name (specified at init)."""
 
         if self.set_name:
-            _bytes = b'\xf8' + self._set_type_struct + write_struct_ascii(self.set_name)
+            _bytes = b'\xf8' + self._set_type_struct + write_struct_ident(self.set_name)
         else:
             _bytes = b'\xf0' + self._set_type_struct
 
diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index 7895267..a4ac020 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -7,7 +7,7 @@ Unless otherwise specified, all quotes in this file come from the RP66 v1 standa
 from typing import Any
 
 from dliswriter.utils.internal.converters import get_ascii_bytes
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import RepresentationCode, EFLRType
 from dliswriter.logical_record.core.eflr import EFLRSet, EFLRItem
 from dliswriter.utils.internal.value_checkers import validate_string
@@ -109,11 +109,11 @@ class FileHeaderSet(EFLRSet):
         bts = b''
 
         bts += pack_ushort(int('00110100', 2))
-        bts += write_struct_ascii('SEQUENCE-NUMBER')
+        bts += write_struct_ident('SEQUENCE-NUMBER')
         bts += pack_ushort(20)
 
         bts += pack_ushort(int('00110100', 2))
-        bts += write_struct_ascii('ID')
+        bts += write_struct_ident('ID')
         bts += pack_ushort(20)
 
         return bts
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 760f85e..2744a68 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -12,6 +12,8 @@ if TYPE_CHECKING:
 UNORM_OFFSET = 32768        #: offset added to values packed as UNORM; '10' and 14 zeros
 ULONG_OFFSET = 3221225472   #: offset added to values packed as ULONG; 11 and 30 zeros
 
+MAX_IDENT_LENGTH = 255      #: maximal number of characters in an identifier; its length is stored as USHORT
+
 
 def write_struct_dtime(date_time: datetime) -> bytes:
     """Convert a datetime object to bytes according to the RP66 V1 standard.
@@ -77,6 +79,20 @@ def write_struct_ascii(value: Any) -> bytes:
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
+def write_struct_ident(value: Any) -> bytes:
+    """Convert value to str, encode as ASCII, and represent as bytes according to the IDENT (or UNITS) format.
+
+    The first byte is the number of characters in the value (converted to str). Therefore, the number of characters
+    cannot exceed 255.
+    """
+
+    value_str = str(value)
+    if len(value_str) > MAX_IDENT_LENGTH:
+        raise ValueError(f"Identifiers and units cannot be longer than {MAX_IDENT_LENGTH} characters; "
+                         f"got {len(value_str)}: {repr(value_str)}")
+    return RepresentationCode.USHORT.convert(len(value_str)) + value_str.encode('ascii')
+
+
 def write_struct_uvari(value: int) -> bytes:
     """Convert an integer to bytes. The format (USHORT/UNORM/ULONG) is chosen depending on the provided value."""
 
@@ -99,7 +115,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
     try:
         origin_reference = write_struct_uvari(value.origin_reference)
         copy_number = RepresentationCode.USHORT.convert(value.copy_number)
-        name = write_struct_ascii(value.name)
+        name = write_struct_ident(value.name)
 
         obname = origin_reference + copy_number + name
 
@@ -112,7 +128,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
 def write_struct_objref(value: "EFLRItem") -> bytes:
     """Create a reference to an EFLRObject, based on the object's name and set type it belongs to."""
 
-    return write_struct_ascii(value.parent.set_type) + value.obname
+    return write_struct_ident(value.parent.set_type) + value.obname
 
 
 def write_struct_status(value: int) -> bytes:
@@ -128,7 +144,7 @@ def write_struct_status(value: int) -> bytes:
 _struct_dict = {
     RepresentationCode.ASCII: write_struct_ascii,
     RepresentationCode.UVARI: write_struct_uvari,
-    RepresentationCode.IDENT: write_struct_ascii,
+    RepresentationCode.IDENT: write_struct_ident,
     RepresentationCode.DTIME: write_struct_dtime,
     RepresentationCode.OBNAME: write_struct_obname,
     RepresentationCode.OBJREF: write_struct_objref,
-- 
2.43.0


From cae03de32d019b812185d74d0078c35a9eb65ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 03/35] fix: write the value, not the member name, of enum
 members used as units or text

---
 src/dliswriter/utils/internal/struct_writer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 2744a68..e9cedf7 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -69,13 +69,19 @@ def write_struct_dtime(date_time: datetime) -> bytes:
     return value
 
 
+def _get_text(value: Any) -> str:
+    """Convert value to str. For members of str-based enums, get the text they stand for, not the member name."""
+
+    return str.__str__(value) if isinstance(value, str) else str(value)
+
+
 def write_struct_ascii(value: Any) -> bytes:
     """Convert value to str, encode as ASCII, and represent as bytes.
 
     The first bytes are the number of characters in the value (converted to str).
     """
 
-    value_str = str(value)
+    value_str = _get_text(value)
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
@@ -86,7 +92,7 @@ def write_struct_ident(value: Any) -> bytes:
     cannot exceed 255.
     """
 
-    value_str = str(value)
+    value_str = _get_text(value)
     if len(value_str) > MAX_IDENT_LENGTH:
         raise ValueError(f"Identifiers and units cannot be longer than {MAX_IDENT_LENGTH} characters; "
                          f"got {len(value_str)}: {repr(value_str)}")
-- 
2.43.0


From c0d8abbc1728e5b5a261996ce705b0e25abeddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 04/35] fix: mark attributes holding an empty list of values as
 absent

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index aa4d425..897977f 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -172,7 +172,7 @@ class EFLRItem:
 
         _bytes = b''
         for attr in self.attributes.values():
-            if attr.value is None:
+            if attr.value is None or attr.count == 0:  # not set or an empty list of values
                 _bytes += b'\x00'
             else:
                 _bytes += attr.get_as_bytes()
-- 
2.43.0


From 4ffc8653389f8e7854a5795e5399c78b8a3743d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 05/35] fix: reject values which are not single strings or
 objects in IDENT attributes and Channel source

---
 .../logical_record/core/attribute/subtypes.py         | 11 +++++++++++
 src/dliswriter/logical_record/eflr_types/channel.py   | 10 +++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index cd2bd9a..cef2ff0 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -360,6 +360,17 @@ class IdentAttribute(Attribute):
 
         super().__init__(*args, **kwargs)
 
+        if not self._converter:
+            self._converter = self._check_string
+
+    @staticmethod
+    def _check_string(v: Optional[str]) -> Optional[str]:
+        """Default value checker: make sure the value is a single str (or None)."""
+
+        if v is not None and not isinstance(v, str):
+            raise TypeError(f'Expected a str, got {type(v)}: {v}')
+        return v
+
 
 class PropertiesAttribute(IdentAttribute):
     """Model an attribute representing properties of DLIS objects - Channel, Computation, and Process."""
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 244b2da..2462cdf 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -69,7 +69,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
         self.dimension = DimensionAttribute('dimension')
         self.axis = EFLRAttribute('axis', object_class=AxisSet, multivalued=True)
         self.element_limit = DimensionAttribute('element_limit')
-        self.source = Attribute('source', representation_code=RepC.OBJREF)
+        self.source = Attribute('source', representation_code=RepC.OBJREF, converter=self._check_source)
         self.minimum_value = NumericAttribute('minimum_value', representation_code=RepC.FDOUBL, multivalued=True)
         self.maximum_value = NumericAttribute('maximum_value', representation_code=RepC.FDOUBL, multivalued=True)
 
@@ -78,6 +78,14 @@ class ChannelItem(EFLRItem, DimensionedItem):
         self._dataset_name: Union[str, None] = dataset_name
         self._set_cast_dtype(cast_dtype)
 
+    @staticmethod
+    def _check_source(v: Any) -> Any:
+        """Check that the provided source is a single value, not a list or tuple of values."""
+
+        if isinstance(v, (list, tuple)):
+            raise TypeError(f"Channel can only have a single source; got {type(v)}: {v}")
+        return v
+
     @property
     def dataset_name(self) -> str:
         """Name of the data corresponding to this channel in the SourceDataWrapper."""
-- 
2.43.0


From e26e74e443ce88a5e7355503ce03683ea32680eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 06/35] fix: pad short segment bodies instead of refusing to
 write them; support all accepted record lengths

---
 .../logical_record/logical_record_bytes.py    | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index c5fe022..acc09b1 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -12,8 +12,6 @@ logger = logging.getLogger(__name__)
 class LogicalRecordBytes:
     """Wrap bytes of a LogicalRecord and StorageUnitLabel, adding segmenting functionalities."""
 
-    padding: bytes = RepC.USHORT.convert(1)  #: padding byte added if the number of bytes in a segment is odd
-
     def __init__(self, bts: bytes, lr_type_struct: bytes, is_eflr: bool = False):
         """Initialise a LogicalRecordBytes object.
 
@@ -70,26 +68,25 @@ class LogicalRecordBytes:
                 raise ValueError("Logical record too short for the requested bytes")
             is_last = end_pos == self._size
 
-        if n_bytes < 12:
-            raise ValueError(f"Logical Record segment body cannot be shorter than 12 bytes (got {n_bytes})")
-
         segment_attributes = SegmentAttributes(
             is_eflr=self._is_eflr,
             is_first=(start_pos == 0),
             is_last=is_last
         )
 
-        size = n_bytes + 4  # adding header size - 4 bytes
-        if size % 2:
-            # total segment size must be even; if the number of bytes is odd, add a padding byte
-            size += 1
-            segment_attributes.has_padding = True
+        # the segment body must be at least 12 bytes long and the total segment size must be even;
+        # if this is not the case, add the missing bytes as padding
+        n_padding = max(12 - n_bytes, 0)
+        n_padding += (n_bytes + n_padding) % 2
+        segment_attributes.has_padding = n_padding > 0
+
+        size = n_bytes + n_padding + 4  # adding header size - 4 bytes
 
         header_bytes = RepC.UNORM.convert(size) + segment_attributes.to_struct() + self._lr_type_struct
 
         new_bts = header_bytes + self._bts[start_pos:end_pos]
         if segment_attributes.has_padding:
-            new_bts += self.padding  # add the promised padding byte
+            new_bts += n_padding * RepC.USHORT.convert(n_padding)  # promised padding bytes; the last one is their count
 
         return new_bts, size
 
@@ -100,8 +97,8 @@ class LogicalRecordBytes:
 
         Args:
             max_n_bytes :   Maximal number of bytes in a segment body. Note that 4 more bytes will be added for the
-                            header (and one more byte for the padding if the number of bytes is odd).
-                            Must be an integer of minimal value of 12. Only this condition (>= 12) is checked;
+                            header (and padding, if the number of bytes is odd or smaller than 12).
+                            Must be an even integer of minimal value of 12. Only this condition (>= 12) is checked;
                             other checks (type etc.) are left out for performance reasons.
 
         Yields:
@@ -112,19 +109,19 @@ class LogicalRecordBytes:
             verif_hooks.report(verif_hooks.lr_sinks, self._is_eflr, self._lr_type_struct, bytes(self._bts))
 
         start_pos = 0  # start from the beginning of the logical record bytes
-        remaining_size = self._size  # all bytes will be processed; self._size is assumed to always be >=12
+        remaining_size = self._size  # all bytes will be processed
 
-        if max_n_bytes < 24:
-            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header),
-            # so for the splitting to work correctly max_n_bytes must be >= 24, which is twice the min segment body size
-            raise ValueError(f"Max size of a logical record segment body cannot be less than 24 (got {max_n_bytes})")
+        if max_n_bytes < 12:
+            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header)
+            raise ValueError(f"Max size of a logical record segment body cannot be less than 12 (got {max_n_bytes})")
 
         while remaining_size > 0:
             n_bytes = min(remaining_size, max_n_bytes)  # size of the current (to be created) segment body
             future_remaining_size = remaining_size - n_bytes  # how many bytes will be left for a next segment
-            if 0 < future_remaining_size < 12:
+            if 0 < future_remaining_size < 12 and n_bytes - (12 - future_remaining_size) >= 12:
                 # the next segment would be shorter than 12 bytes, and this is not allowed
                 # so the current segment must be shortened by a few bytes which will be passed over to the next segment;
+                # (if this would make the current segment too short, the next one is padded instead)
                 n_bytes -= (12 - future_remaining_size)
                 future_remaining_size = 12
 
-- 
2.43.0


From 73fda7181c4510aea9d7c03789c9a8fdbd943dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 07/35] fix: do not append padding to no-format payloads

---
 .../logical_record/iflr_types/no_format_frame_data.py  | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index 80db7a6..b9de52f 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -1,7 +1,6 @@
 from typing import Union
 
 from dliswriter.logical_record.core.iflr import IFLR
-from dliswriter.logical_record.core.logical_record.logical_record_bytes import LogicalRecordBytes
 from dliswriter.utils.internal.internal_enums import IFLRType
 from dliswriter.logical_record.eflr_types.no_format import NoFormatItem
 
@@ -27,14 +26,7 @@ class NoFormatFrameData(IFLR):
         else:
             data_encoded = self.data.encode('ascii')
 
-        bts = self.no_format_object.obname + data_encoded
-
-        # add padding if the length of the bts is less than minimum (12)
-        padding_len = 12 - len(bts)
-        if padding_len:
-            bts += padding_len * LogicalRecordBytes.padding
-
-        return bts
+        return self.no_format_object.obname + data_encoded
 
     @property
     def n_items(self) -> int:
-- 
2.43.0


From 99b8d5a702c317a010ddb12e5bef6efbae023958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 08/35] fix: reject no-format data of wrong type or not
 belonging to a no-format object

---
 .../logical_record/iflr_types/no_format_frame_data.py       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index b9de52f..c216284 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -15,6 +15,12 @@ class NoFormatFrameData(IFLR):
 
         super().__init__()
 
+        if not isinstance(no_format_object, NoFormatItem):
+            raise TypeError(f"Expected a NoFormatItem, got {type(no_format_object)}: {no_format_object}")
+
+        if not isinstance(data, (str, bytes, bytearray)):
+            raise TypeError(f"Expected str, bytes, or bytearray; got {type(data)}: {data}")
+
         self.no_format_object = no_format_object
         self.data = data
 
-- 
2.43.0


From d74a5240cb723adb1a0cbc94d0dbc4ab58b499ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 09/35] fix: bring data to native byte order so that it is
 written correctly for any source byte order

---
 src/dliswriter/utils/source_data_wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index f761131..5573210 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -109,6 +109,9 @@ class SourceDataWrapper(ABC):
             number_type = known_dtypes.get(dtype_name, dset_row0.dtype)
             ReprCodeConverter.validate_numpy_dtype(number_type)
 
+            # the chunks are always in native byte order, irrespective of the byte order of the source data
+            number_type = np.dtype(number_type).newbyteorder('=')
+
             # determine the dtype of the data set (2- or 3-tuple)
             dt = (dtype_name, number_type)
             if dset_row0.ndim > 1:
-- 
2.43.0


From 548aa9ee2d8fc3d903e92381a108f720335adb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 10/35] fix: respect from_idx and dataset names when slicing
 structured arrays directly

---
 src/dliswriter/utils/source_data_wrappers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 5573210..8864a05 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -332,8 +332,10 @@ class NumpyDataWrapper(SourceDataWrapper):
             A structured numpy array, containing the required chunks of all the relevant data sets from the source data.
         """
 
-        if self._dtype == self._data_source.dtype:
-            return self._data_source[start:stop]
+        if self._dtype == self._data_source.dtype and all(k == v for k, v in self._mapping.items()):
+            if stop is None:
+                stop = self._n_rows
+            return self._data_source[self._from_idx + start:self._from_idx + stop]
 
         return super().load_chunk(start, stop)
 
-- 
2.43.0


From d74407b912b6e3c623d73358675366b60abe2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 11/35] fix: reject data sets of unequal lengths and row
 windows outside of the data

---
 src/dliswriter/file/file.py                  |  4 ++++
 src/dliswriter/file/multi_frame_data.py      |  5 +++++
 src/dliswriter/utils/source_data_wrappers.py | 11 +++++++++++
 3 files changed, 20 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 51396b8..26d5266 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -113,6 +113,10 @@ class DLISFile:
     def generator(self, multi_frame_data_objects: list[list[MultiFrameData]]) -> Generator:
         """Define a generator yielding logical records to be put in the file."""
 
+        for lf_multi_frame_data_objects in multi_frame_data_objects:
+            for multi_frame_data in lf_multi_frame_data_objects:
+                multi_frame_data.check_row_counts()
+
         for idx_lf, logical_file in enumerate(self.logical_files):
             yield logical_file.file_header_item.parent
 
diff --git a/src/dliswriter/file/multi_frame_data.py b/src/dliswriter/file/multi_frame_data.py
index 3e2d4bb..7f59103 100644
--- a/src/dliswriter/file/multi_frame_data.py
+++ b/src/dliswriter/file/multi_frame_data.py
@@ -57,6 +57,11 @@ class MultiFrameData:
 
         return self._frame
 
+    def check_row_counts(self) -> None:
+        """Check that the data for all channels of the frame have the same number of rows."""
+
+        self._data_source.check_row_counts()
+
     def __len__(self) -> int:
         """Number of data rows (= number of FrameData objects that can be created from the provided data)."""
 
diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 8864a05..22c85ab 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -50,12 +50,23 @@ class SourceDataWrapper(ABC):
         self._to_idx = to_idx if to_idx is not None else total_n_rows
         self._n_rows = self._to_idx - self._from_idx  # number of rows to be loaded
 
+        if self._from_idx < 0:
+            raise ValueError(f"Starting index cannot be negative; got {self._from_idx}")
+        if self._to_idx > total_n_rows:
+            raise ValueError(f"End index {self._to_idx} too large for total n. rows {total_n_rows}")
         if self._from_idx >= total_n_rows:
             raise ValueError(f"Starting index {self._from_idx} too large for total n. rows {total_n_rows}")
         if self._n_rows < 1:
             raise ValueError(f"Starting index {self._from_idx} and end index {self._to_idx} do not yield a positive "
                              f"number of rows to be loaded")
 
+    def check_row_counts(self) -> None:
+        """Check that all data sets to be written have the same number of rows. Raise a ValueError otherwise."""
+
+        row_counts = {name: self._data_source[name].shape[0] for name in self._mapping.values()}
+        if len(set(row_counts.values())) > 1:
+            raise ValueError(f"All data sets of a frame must have the same number of rows; got {row_counts}")
+
     @property
     def n_rows(self) -> int:
         """Total number of data rows."""
-- 
2.43.0


From 3e817ff0b519eb5110ffbb9996c0b23bfecff7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 12/35] fix: reject input chunk sizes smaller than 1

---
 src/dliswriter/file/multi_frame_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/file/multi_frame_data.py b/src/dliswriter/file/multi_frame_data.py
index 7f59103..073f3e0 100644
--- a/src/dliswriter/file/multi_frame_data.py
+++ b/src/dliswriter/file/multi_frame_data.py
@@ -27,6 +27,8 @@ class MultiFrameData:
         self._check_type(frame, FrameItem)
         self._check_type(data, SourceDataWrapper)
         self._check_type(chunk_size, int, type(None))
+        if chunk_size is not None and chunk_size < 1:
+            raise ValueError(f"Input chunk size must be a positive integer; got {chunk_size}")
 
         frame_channel_names = tuple(c.name for c in frame.channels.value)
         data_channel_names = data.dtype.names
-- 
2.43.0


From 1678a589193b41c5945fb023dba2ebe957097bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 13/35] fix: keep the element limit specified by the user for a
 channel

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 2462cdf..4a61a23 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -147,7 +147,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-            self.element_limit.value = dim
+                self.element_limit.value = dim
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
-- 
2.43.0


From 32b69c766722d22700ee8886d31a3566704ffc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 14/35] fix: determine frame index bounds, spacing, and
 direction from the data as written, without integer wrap-around

---
 src/dliswriter/logical_record/eflr_types/frame.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 4dc250b..07ef1d7 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -98,7 +98,7 @@ class FrameItem(EFLRItem):
                 setattr(attr, key, value)
 
         index_channel: ChannelItem = self.channels.value[0]
-        index_data = data[index_channel.name][:]
+        index_data = data[index_channel.name][:].astype(data.dtype[index_channel.name].base)  # data as written
 
         if self.index_type.value is None:
             # according to RP66, if index_type is None:
@@ -120,7 +120,9 @@ class FrameItem(EFLRItem):
                                    f"for {index_channel} of {self}")
             spacing, direction = self._compute_spacing_and_direction(index_data)
 
-            if spacing is None:
+            if index_data.shape[0] < 2:
+                pass  # neither spacing nor direction can be determined from a single row
+            elif spacing is None:
                 # spacing cannot be used because it is not uniform enough; using only direction - if available
                 m = (f"Spacing of the index channel of {self} is not uniform; this can cause issues in some viewer "
                      f"software. Consider implicit indexing by row number number instead "
@@ -143,6 +145,9 @@ class FrameItem(EFLRItem):
             If direction cannot be determined, it is assigned to None.
         """
 
+        if np.issubdtype(index_data.dtype, np.integer):
+            index_data = index_data.astype(np.float64)  # differences of (unsigned) integers might wrap around
+
         diff = np.diff(index_data)
         diff_unique = np.unique(diff)
 
@@ -155,6 +160,9 @@ class FrameItem(EFLRItem):
         else:
             direction = None  # some increasing, some decreasing -> not determined
 
+        if not diff.size or not np.isfinite(diff).all():
+            return None, direction
+
         if len(diff_unique) == 1:
             # if spacing between each sample is the same, this is it
             return diff_unique[0], direction
-- 
2.43.0


From e32320adff6792b0fa94bfa793b40420681fb55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 15/35] fix: do not reuse bytes cached for equal values, other
 files, or previous identities of an object

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 3 +++
 src/dliswriter/utils/internal/struct_writer.py       | 2 --
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 897977f..a457ec7 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -156,6 +156,9 @@ class EFLRItem:
         if isinstance(getattr(self, key, None), Attribute):
             raise RuntimeError(f"Cannot set DLIS Attribute '{key}'. Did you mean setting '{key}.value' instead?")
 
+        if key in ('name', '_origin_reference', '_copy_number'):
+            self.__dict__.pop('obname', None)  # the cached OBNAME bytes are not valid anymore
+
         return super().__setattr__(key, value)
 
     @cached_property
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index e9cedf7..f6d3767 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -1,6 +1,5 @@
 from datetime import datetime, timezone
 from typing import Any, TYPE_CHECKING
-from functools import lru_cache
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 
@@ -158,7 +157,6 @@ _struct_dict = {
 }
 
 
-@lru_cache(maxsize=65536)
 def write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
     """Convert a value to bytes according to the RP66 V1 spec.
 
-- 
2.43.0


From 513a26658c6d61ca3d30cc0778ff2d51d2e55f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 16/35] fix: do not register set types on reading, which
 affected the order of sets in the file

---
 src/dliswriter/file/eflr_sets_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 7859bc5..96a12d1 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -69,5 +69,5 @@ class EFLRSetsDict(defaultdict):
     def get_all_items_for_set_type(self, eflr_set_type: type[EFLRSet]) -> Generator[AnyEFLRItem, None, None]:
         """Retrieve all EFLRItem instances registered for all instances of given EFLRSet subclass."""
 
-        for value in self[eflr_set_type].values():
+        for value in self.get(eflr_set_type, {}).values():
             yield from value.get_all_eflr_items()
-- 
2.43.0


From 754e2812f0dca41d690cff8a6485545095c771d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 17/35] fix: respect origin reference 0 if chosen explicitly by
 the user

---
 src/dliswriter/file/file.py | 49 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 26d5266..b61507d 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -315,6 +315,11 @@ class LogicalFile:
             return origin.origin_reference
         return None
 
+    def _get_origin_reference(self, origin_reference: Optional[int]) -> Union[int, None]:
+        """Return the origin reference chosen by the user (also if it is 0) or the default one otherwise."""
+
+        return origin_reference if origin_reference is not None else self.default_origin_reference
+
     @property
     def channels(self) -> list[eflr_types.ChannelItem]:
         """Channels defined for the DLIS."""
@@ -377,7 +382,7 @@ class LogicalFile:
             coordinates=coordinates,
             spacing=spacing,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return ax
@@ -453,7 +458,7 @@ class LogicalFile:
             parameters=parameters,
             method=method,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -532,7 +537,7 @@ class LogicalFile:
             plus_tolerances=plus_tolerances,
             minus_tolerances=minus_tolerances,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -674,7 +679,7 @@ class LogicalFile:
             plus_tolerance=plus_tolerance,
             minus_tolerance=minus_tolerance,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return m
@@ -764,7 +769,7 @@ class LogicalFile:
             maximum_value=maximum_value,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         if data is not None:
@@ -829,7 +834,7 @@ class LogicalFile:
             name=name,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -901,7 +906,7 @@ class LogicalFile:
             values=values,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -1018,7 +1023,7 @@ class LogicalFile:
             radial_drift=radial_drift,
             angular_drift=angular_drift,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return eq
@@ -1131,7 +1136,7 @@ class LogicalFile:
             index_min=index_min,
             index_max=index_max,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return fr
@@ -1177,7 +1182,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.GroupSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return g
@@ -1277,7 +1282,7 @@ class LogicalFile:
             standard_symbol=standard_symbol,
             private_symbol=private_symbol,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return ln
@@ -1328,7 +1333,7 @@ class LogicalFile:
             angular_drift=angular_drift,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return m
@@ -1377,7 +1382,7 @@ class LogicalFile:
             consumer_name=consumer_name,
             description=description,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return nf
@@ -1408,7 +1413,7 @@ class LogicalFile:
     ) -> int:
         origins_refs = [o.origin_reference for o in origins]
         next_available_origin_ref: int = 0
-        if origin_reference:
+        if origin_reference is not None:
             next_available_origin_ref = origin_reference
             if origin_reference in origins_refs:
                 raise RuntimeError(
@@ -1550,7 +1555,7 @@ class LogicalFile:
 
         o = eflr_types.OriginItem(
             name=name,
-            origin_reference=origin_reference or new_origin_ref,
+            origin_reference=new_origin_ref,
             file_set_number=file_set_number,
             file_set_name=file_set_name,
             file_id=self.file_header.header_id,
@@ -1651,7 +1656,7 @@ class LogicalFile:
             zones=zones,
             values=values,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1774,7 +1779,7 @@ class LogicalFile:
             measure_point_offset=measure_point_offset,
             tool_zero_offset=tool_zero_offset,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1850,7 +1855,7 @@ class LogicalFile:
             parameters=parameters,
             comments=comments,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1902,7 +1907,7 @@ class LogicalFile:
             input_channels=input_channels,
             zones=zones,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return sp
@@ -1963,7 +1968,7 @@ class LogicalFile:
             channels=channels,
             parameters=parameters,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return t
@@ -2053,7 +2058,7 @@ class LogicalFile:
             coordinate_3_name=coordinate_3_name,
             coordinate_3_value=coordinate_3_value,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return w
@@ -2114,7 +2119,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.ZoneSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return z
-- 
2.43.0


From bc4c2180e74cb024e824e75c815d200c1aeb70db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 18/35] fix: do not assign the origin of one logical file to
 objects of other logical files

---
 src/dliswriter/file/file.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index b61507d..25fcf8d 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1591,11 +1591,6 @@ class LogicalFile:
                     for eflr_item in eflr_set.get_all_eflr_items():
                         if eflr_item.origin_reference is None:
                             eflr_item.origin_reference = o.origin_reference
-            for eflr_set_dict in self.physical_file._eflr_sets.values():
-                for eflr_set in eflr_set_dict.values():
-                    for eflr_item in eflr_set.get_all_eflr_items():
-                        if eflr_item.origin_reference is None:
-                            eflr_item.origin_reference = o.origin_reference
 
             # Not enlisted in the sets. See Issue #
             self.file_header_item.origin_reference = o.origin_reference
-- 
2.43.0


From c10970e2e2e57b0cc63298499a1d510464b76cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 19/35] fix: treat empty set name as no name; reject set names
 which are not strings

---
 src/dliswriter/file/eflr_sets_dict.py               | 3 +++
 src/dliswriter/logical_record/core/eflr/eflr_set.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 96a12d1..8ea80fd 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -53,6 +53,9 @@ class EFLRSetsDict(defaultdict):
             An EFLRSet instance of given subtype and name, registered in the structure.
         """
 
+        if set_name == '':
+            set_name = None  # an empty name is not written to the file, so there would be 2 sets without a name
+
         # dict mapping set names on EFLRSet (subclass) instances
         eflr_set_dict: dict[Union[str, None], AnyEFLRSet] = self[eflr_set_type]
 
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 0fc8543..263332a 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -28,6 +28,9 @@ class EFLRSet(LogicalRecord):
 
         super().__init__()
 
+        if set_name is not None and not isinstance(set_name, str):
+            raise TypeError(f"Set name must be a str; got {type(set_name)}: {set_name}")
+
         self.set_name = set_name
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
-- 
2.43.0


From adf509691216af4cddb32f70087476d4222333d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 20/35] fix: give distinct copy numbers to objects of the same
 name and type also across named sets

---
 src/dliswriter/file/eflr_sets_dict.py              |  1 +
 .../logical_record/core/eflr/eflr_item.py          | 14 +++++++++++---
 .../logical_record/core/eflr/eflr_set.py           |  3 +++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 8ea80fd..5cbb536 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -40,6 +40,7 @@ class EFLRSetsDict(defaultdict):
             return False
         else:
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
+            eflr_set.sibling_sets = self[eflr_set.__class__]
             return True
 
     def get_or_make_set(self, eflr_set_type: type[AnyEFLRSet], set_name: Optional[str] = None) -> AnyEFLRSet:
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index a457ec7..a4d909e 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -114,10 +114,18 @@ class EFLRItem:
         return v
 
     def _compute_copy_number(self) -> int:
-        """Compute copy number of this ELFRItem, i.e. how many other objects of the same type and name there are."""
+        """Compute copy number of this ELFRItem, i.e. how many other objects of the same type and name there are.
 
-        items_with_the_same_name = filter(lambda o: o.name == self.name, self.parent.get_all_eflr_items())
-        return len(list(items_with_the_same_name)) - 1
+        All sets of the given type in the logical file are taken into account.
+        """
+
+        used_copy_numbers = [item.copy_number for eflr_set in self.parent.sibling_sets.values()
+                             for item in eflr_set.get_all_eflr_items() if item is not self and item.name == self.name]
+
+        copy_number = len(used_copy_numbers)
+        while copy_number in used_copy_numbers:
+            copy_number += 1
+        return copy_number
 
     @classmethod
     def _check_parent(cls, parent: "EFLRSet") -> None:
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 263332a..7726f28 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -35,6 +35,9 @@ class EFLRSet(LogicalRecord):
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
+        #: all sets of the same type in the same logical file, by set name
+        self.sibling_sets: dict[Optional[str], EFLRSet] = {set_name: self}
+
     def __str__(self) -> str:
         """Represent the EFLRSet instance as str."""
 
-- 
2.43.0


From 80303938a8d4646414275feb074e83aa89b4f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 21/35] fix: include file headers in the number of logical
 records, which limited the number of logical files

---
 src/dliswriter/file/file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 25fcf8d..5f17e46 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -174,6 +174,7 @@ class DLISFile:
             n += len(list(self._eflr_sets.get_all_items_for_set_type(eflr_set_type)))
 
         for idx_lf, logical_file in enumerate(self.logical_files):
+            n += 1  # file header
             for mfd in multi_frame_data_objects[idx_lf]:
                 n += len(mfd)
             n += len(logical_file._no_format_frame_data)
-- 
2.43.0


From 36a1a6493c24de27d9ddaa9f644024f786d1aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 22/35] fix: refuse to write a file without any logical files

---
 src/dliswriter/file/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 5f17e46..987ec29 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -208,6 +208,9 @@ class DLISFile:
             This function is used in a timeit call to time the file creation.
             """
 
+            if not self.logical_files:
+                raise RuntimeError("No logical files defined for the file")
+
             for lf in self.logical_files:
                 lf.check_objects()
 
-- 
2.43.0


From 6aca4c1db4908c78363ed725099bb84dd3c15ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 23/35] fix: refuse to write sets shared by multiple logical
 files; check type of file header

---
 src/dliswriter/file/file.py | 43 ++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 987ec29..7b5660c 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -23,7 +23,7 @@ from dliswriter.utils.internal.types import (
 )
 from dliswriter.utils.internal.sized_generator import SizedGenerator
 from dliswriter.utils import enums
-from dliswriter.logical_record.core.eflr import EFLRItem, AttrSetup
+from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, AttrSetup
 from dliswriter.logical_record.misc import StorageUnitLabel
 from dliswriter.logical_record import eflr_types
 from dliswriter.logical_record.iflr_types.no_format_frame_data import NoFormatFrameData
@@ -110,6 +110,26 @@ class DLISFile:
         self.logical_files.append(lf)
         return lf
 
+    def _check_logical_files_separate(self) -> None:
+        """Check that each EFLR set (including the file header) belongs to exactly one logical file."""
+
+        set_ids: set[int] = set()
+
+        for idx_lf, lf in enumerate(self.logical_files):
+            lf_sets: list[EFLRSet] = [lf.file_header.parent]
+            for eflr_set_dict in lf._eflr_sets.values():
+                lf_sets.extend(eflr_set_dict.values())
+
+            if lf.file_header.parent.n_items != 1:
+                raise RuntimeError(f"Expected exactly one file header in the file header set of the {idx_lf}-th "
+                                   f"logical file; got {lf.file_header.parent.n_items}")
+
+            for eflr_set in lf_sets:
+                if id(eflr_set) in set_ids:
+                    raise RuntimeError(f"{eflr_set} contains objects of more than one logical file; please specify "
+                                       f"a different set name for each logical file")
+                set_ids.add(id(eflr_set))
+
     def generator(self, multi_frame_data_objects: list[list[MultiFrameData]]) -> Generator:
         """Define a generator yielding logical records to be put in the file."""
 
@@ -211,6 +231,8 @@ class DLISFile:
             if not self.logical_files:
                 raise RuntimeError("No logical files defined for the file")
 
+            self._check_logical_files_separate()
+
             for lf in self.logical_files:
                 lf.check_objects()
 
@@ -281,17 +303,14 @@ class LogicalFile:
         # as an attribute, as we see below:
 
         self.file_header_item: eflr_types.FileHeaderItem
-        if file_header is not None:
-            self.file_header_item = file_header
-        else:
-            self.file_header_item = _set_up_sul_or_fh(
-                item_class=eflr_types.FileHeaderItem,
-                item=file_header,
-                header_id=fh_id,
-                identifier=fh_identifier,
-                sequence_number=fh_sequence_number,
-                parent=fh_set,  # file_header.parent
-            )
+        self.file_header_item = _set_up_sul_or_fh(
+            item_class=eflr_types.FileHeaderItem,
+            item=file_header,
+            header_id=fh_id,
+            identifier=fh_identifier,
+            sequence_number=fh_sequence_number,
+            parent=fh_set,  # file_header.parent
+        )
 
         self._data_dict: dict[str, np.ndarray] = {}
         self._max_dataset_copy = 1000
-- 
2.43.0


From affcc6a599533c242481397214a917a3445c2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 24/35] fix: refuse to write ambiguous object identities and
 references to objects or origins from outside of the logical file

---
 src/dliswriter/file/file.py | 41 +++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 7b5660c..28a27b6 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -23,6 +23,7 @@ from dliswriter.utils.internal.types import (
 )
 from dliswriter.utils.internal.sized_generator import SizedGenerator
 from dliswriter.utils import enums
+from dliswriter.logical_record.core.attribute import Attribute
 from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, AttrSetup
 from dliswriter.logical_record.misc import StorageUnitLabel
 from dliswriter.logical_record import eflr_types
@@ -2148,6 +2149,46 @@ class LogicalFile:
         self._check_completeness()
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
+        self._check_identities_and_references()
+
+    def _get_all_items(self) -> list[EFLRItem]:
+        """Get all objects defined for the logical file, including the file header."""
+
+        items: list[EFLRItem] = [self.file_header]
+        for eflr_set_dict in self._eflr_sets.values():
+            for eflr_set in eflr_set_dict.values():
+                items.extend(eflr_set.get_all_eflr_items())
+        return items
+
+    def _check_identities_and_references(self) -> None:
+        """Check that the objects can be told apart and all references point to objects of this logical file."""
+
+        items = self._get_all_items()
+        item_ids = set(id(item) for item in items)
+        origin_references = set(o.origin_reference for o in self.origins)
+
+        identities: set[tuple] = set()
+        for item in items:
+            identity = (item.parent.set_type, item.origin_reference, item.copy_number, item.name)
+            if identity in identities:
+                raise RuntimeError(f"There are multiple objects with the same set type, origin reference, "
+                                   f"copy number, and name: {identity}")
+            identities.add(identity)
+
+            if item.origin_reference not in origin_references:
+                raise RuntimeError(f"Origin reference of {item} ({item.origin_reference}) does not correspond "
+                                   f"to any origin of the logical file")
+
+            for attr in item.attributes.values():
+                values = attr.value if isinstance(attr.value, (list, tuple)) else [attr.value]
+                for v in Attribute.flatten_list(values):
+                    if isinstance(v, EFLRItem) and id(v) not in item_ids:
+                        raise RuntimeError(f"{v}, referenced by {item}, does not belong to the logical file")
+
+        for d in self._no_format_frame_data:
+            if id(d.no_format_object) not in item_ids:
+                raise RuntimeError(f"{d.no_format_object}, referenced by no-format data, "
+                                   f"does not belong to the logical file")
 
     def _check_defining_origin_params(self) -> None:
         """Check that the file_id of the defining origin is the same as the ID of the header."""
-- 
2.43.0


From 26c45fc4050adcf15902070ce92e2f331f4366db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 25/35] fix: refuse to overwrite the source data file with the
 produced DLIS file

---
 src/dliswriter/file/file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 28a27b6..ef1e359 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -3,6 +3,7 @@
 Note: unless otherwise specified, all quotes come from teh RP66 v1 standard specification.
 """
 
+import os
 from typing import Any, Union, Optional, TypeVar, Generator
 import numpy as np
 from timeit import timeit
@@ -234,6 +235,10 @@ class DLISFile:
 
             self._check_logical_files_separate()
 
+            if isinstance(data, (str, os.PathLike)) and os.path.exists(dlis_file_name) \
+                    and os.path.exists(data) and os.path.samefile(data, dlis_file_name):
+                raise ValueError(f"The source data file {data} cannot be overwritten with the produced DLIS file")
+
             for lf in self.logical_files:
                 lf.check_objects()
 
-- 
2.43.0


From 22392360d2bfbdf4553db6bbdf314c2cd353d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 26/35] fix: leave no trace of objects whose adding was
 rejected

---
 src/dliswriter/file/eflr_sets_dict.py         | 24 ++++++++++-
 src/dliswriter/file/file.py                   | 42 ++++++++++++++++++-
 .../logical_record/core/eflr/eflr_set.py      |  5 +++
 3 files changed, 69 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 5cbb536..f416abe 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -40,7 +40,8 @@ class EFLRSetsDict(defaultdict):
             return False
         else:
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
-            eflr_set.sibling_sets = self[eflr_set.__class__]
+            if not eflr_set.n_items:
+                eflr_set.sibling_sets = self[eflr_set.__class__]
             return True
 
     def get_or_make_set(self, eflr_set_type: type[AnyEFLRSet], set_name: Optional[str] = None) -> AnyEFLRSet:
@@ -70,6 +71,27 @@ class EFLRSetsDict(defaultdict):
 
         return eflr_set_instance
 
+    def get_state(self) -> dict:
+        """Get a record of the sets registered in the structure and the numbers of items in each of them."""
+
+        return {eflr_set_type: {set_name: eflr_set.n_items for set_name, eflr_set in eflr_set_dict.items()}
+                for eflr_set_type, eflr_set_dict in self.items()}
+
+    def restore_state(self, state: dict) -> None:
+        """Remove the sets and items added to the structure since the provided state was obtained ('get_state')."""
+
+        for eflr_set_type in list(self):
+            eflr_set_dict = self[eflr_set_type]
+
+            for set_name in list(eflr_set_dict):
+                if set_name in state.get(eflr_set_type, {}):
+                    eflr_set_dict[set_name].remove_last_items(state[eflr_set_type][set_name])
+                else:
+                    del eflr_set_dict[set_name]
+
+            if eflr_set_type not in state:
+                del self[eflr_set_type]
+
     def get_all_items_for_set_type(self, eflr_set_type: type[EFLRSet]) -> Generator[AnyEFLRItem, None, None]:
         """Retrieve all EFLRItem instances registered for all instances of given EFLRSet subclass."""
 
diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index ef1e359..94e5c27 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -3,8 +3,9 @@
 Note: unless otherwise specified, all quotes come from teh RP66 v1 standard specification.
 """
 
+import functools
 import os
-from typing import Any, Union, Optional, TypeVar, Generator
+from typing import Any, Callable, Union, Optional, TypeVar, Generator
 import numpy as np
 from timeit import timeit
 from datetime import timedelta, datetime
@@ -67,6 +68,24 @@ def raise_or_warn(message: str) -> None:
     logger.warning(message)
 
 
+def undo_if_rejected(add_method: Callable[..., T]) -> Callable[..., T]:
+    """Decorate a LogicalFile's method adding an object: if it raises, leave the file as it was before the call."""
+
+    @functools.wraps(add_method)
+    def wrapper(self: "LogicalFile", *args: Any, **kwargs: Any) -> T:
+        registries = (self._eflr_sets, self.physical_file._eflr_sets)
+        states = [registry.get_state() for registry in registries]
+
+        try:
+            return add_method(self, *args, **kwargs)
+        except BaseException:
+            for registry, state in zip(registries, states):
+                registry.restore_state(state)
+            raise
+
+    return wrapper
+
+
 class DLISFile:
     """DLIS file. Contains the list of the logical files, the Storage Unit Label and the writing routines"""
 
@@ -367,6 +386,7 @@ class LogicalFile:
 
         return list(self._eflr_sets.get_all_items_for_set_type(eflr_types.OriginSet))
 
+    @undo_if_rejected
     def add_axis(
         self,
         name: str,
@@ -416,6 +436,7 @@ class LogicalFile:
 
         return ax
 
+    @undo_if_rejected
     def add_calibration(
         self,
         name: str,
@@ -492,6 +513,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_calibration_coefficient(
         self,
         name: str,
@@ -571,6 +593,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_calibration_measurement(
         self,
         name: str,
@@ -713,6 +736,7 @@ class LogicalFile:
 
         return m
 
+    @undo_if_rejected
     def add_channel(
         self,
         name: str,
@@ -835,6 +859,7 @@ class LogicalFile:
 
         return n
 
+    @undo_if_rejected
     def add_comment(
         self,
         name: str,
@@ -868,6 +893,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_computation(
         self,
         name: str,
@@ -940,6 +966,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_equipment(
         self,
         name: str,
@@ -1057,6 +1084,7 @@ class LogicalFile:
 
         return eq
 
+    @undo_if_rejected
     def add_frame(
         self,
         name: str,
@@ -1170,6 +1198,7 @@ class LogicalFile:
 
         return fr
 
+    @undo_if_rejected
     def add_group(
         self,
         name: str,
@@ -1216,6 +1245,7 @@ class LogicalFile:
 
         return g
 
+    @undo_if_rejected
     def add_long_name(
         self,
         name: str,
@@ -1316,6 +1346,7 @@ class LogicalFile:
 
         return ln
 
+    @undo_if_rejected
     def add_message(
         self,
         name: str,
@@ -1367,6 +1398,7 @@ class LogicalFile:
 
         return m
 
+    @undo_if_rejected
     def add_no_format(
         self,
         name: str,
@@ -1454,6 +1486,7 @@ class LogicalFile:
             next_available_origin_ref += 1
         return next_available_origin_ref
 
+    @undo_if_rejected
     def add_origin(
         self,
         name: str,
@@ -1626,6 +1659,7 @@ class LogicalFile:
 
         return o
 
+    @undo_if_rejected
     def add_parameter(
         self,
         name: str,
@@ -1685,6 +1719,7 @@ class LogicalFile:
 
         return p
 
+    @undo_if_rejected
     def add_path(
         self,
         name: str,
@@ -1808,6 +1843,7 @@ class LogicalFile:
 
         return p
 
+    @undo_if_rejected
     def add_process(
         self,
         name: str,
@@ -1884,6 +1920,7 @@ class LogicalFile:
 
         return p
 
+    @undo_if_rejected
     def add_splice(
         self,
         name: str,
@@ -1936,6 +1973,7 @@ class LogicalFile:
 
         return sp
 
+    @undo_if_rejected
     def add_tool(
         self,
         name: str,
@@ -1997,6 +2035,7 @@ class LogicalFile:
 
         return t
 
+    @undo_if_rejected
     def add_well_reference_point(
         self,
         name: str,
@@ -2087,6 +2126,7 @@ class LogicalFile:
 
         return w
 
+    @undo_if_rejected
     def add_zone(
         self,
         name: str,
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 7726f28..faea31d 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -90,6 +90,11 @@ class EFLRSet(LogicalRecord):
 
         self._eflr_item_list.append(child)
 
+    def remove_last_items(self, n_items: int) -> None:
+        """Remove the items registered last so that only the first n_items are left."""
+
+        del self._eflr_item_list[n_items:]
+
     def get_all_eflr_items(self) -> list[EFLRItem]:
         """Return a list of all EFLRItem instances registered with this EFLRSet instance."""
 
-- 
2.43.0


From 59b9248b838381b4724146e4b9c4498c6c0c72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 27/35] fix: do not let values determined in one write affect
 subsequent writes

---
 src/dliswriter/file/file.py                   | 22 ++++++++++++++++++-
 .../logical_record/core/eflr/eflr_item.py     | 11 ++++++++++
 .../logical_record/eflr_types/channel.py      | 11 ++++++++++
 3 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 94e5c27..1c7cfc2 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -5,6 +5,7 @@ Note: unless otherwise specified, all quotes come from teh RP66 v1 standard spec
 
 import functools
 import os
+from contextlib import ExitStack, contextmanager
 from typing import Any, Callable, Union, Optional, TypeVar, Generator
 import numpy as np
 from timeit import timeit
@@ -277,7 +278,12 @@ class DLISFile:
                 logical_records, output_chunk_size=output_chunk_size
             )
 
-        exec_time = timeit(timed_func, number=1)
+        with ExitStack() as stack:
+            for logical_file in self.logical_files:
+                stack.enter_context(logical_file.preserve_specification())
+
+            exec_time = timeit(timed_func, number=1)
+
         logger.info(
             f"DLIS file created in {timedelta(seconds=exec_time)} ({exec_time} seconds)"
         )
@@ -2196,6 +2202,20 @@ class LogicalFile:
         self._check_defining_origin_params()
         self._check_identities_and_references()
 
+    @contextmanager
+    def preserve_specification(self) -> Generator:
+        """Discard the defaults and the values determined from data which are assigned in the scope of the context."""
+
+        data_dict = self._data_dict
+        item_states = [(item, item.get_state()) for item in self._get_all_items()]
+
+        try:
+            yield
+        finally:
+            self._data_dict = data_dict
+            for item, state in item_states:
+                item.restore_state(state)
+
     def _get_all_items(self) -> list[EFLRItem]:
         """Get all objects defined for the logical file, including the file header."""
 
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index a4d909e..5a227a6 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -235,6 +235,17 @@ class EFLRItem:
             else:
                 set_value(attr, attr_value)
 
+    def get_state(self) -> dict:
+        """Get the current values and units of all attributes of the item."""
+
+        return {key: (attr._value, attr._units) for key, attr in self.attributes.items()}
+
+    def restore_state(self, state: dict) -> None:
+        """Restore values and units of the attributes, obtained earlier with 'get_state'."""
+
+        for key, attr in self.attributes.items():
+            attr._value, attr._units = state[key]
+
     @staticmethod
     def count_attributes(*attrs: Attribute) -> dict:
         """Count the number of values (length of value list) defined for each of the provided Attribute.
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 4a61a23..e2a964d 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -119,6 +119,17 @@ class ChannelItem(EFLRItem, DimensionedItem):
         self._cast_dtype = dt
         self.representation_code.set_from_dtype(self.cast_dtype)
 
+    def get_state(self) -> dict:
+        """Get the current values and units of all attributes of the channel and its cast dtype."""
+
+        return {**super().get_state(), '_cast_dtype': self._cast_dtype}
+
+    def restore_state(self, state: dict) -> None:
+        """Restore values and units of the attributes and the cast dtype, obtained earlier with 'get_state'."""
+
+        super().restore_state(state)
+        self._cast_dtype = state['_cast_dtype']
+
     def set_dimension_and_repr_code_from_data(self, data: SourceDataWrapper) -> None:
         """Determine and dimension and representation code attributes of the ChannelItem based on the source data."""
 
-- 
2.43.0


From e50185f374ed393b3a9f896af934e3204cb4d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 28/35] fix: check names also at write in high-compatibility
 mode; warn about incompatible names outside of it

---
 src/dliswriter/file/file.py                     | 13 +++++++++++++
 src/dliswriter/utils/internal/value_checkers.py | 14 +++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 1c7cfc2..0172e26 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -25,6 +25,7 @@ from dliswriter.utils.internal.types import (
     AttrDict,
 )
 from dliswriter.utils.internal.sized_generator import SizedGenerator
+from dliswriter.utils.internal.value_checkers import validate_string
 from dliswriter.utils import enums
 from dliswriter.logical_record.core.attribute import Attribute
 from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, AttrSetup
@@ -259,6 +260,9 @@ class DLISFile:
                     and os.path.exists(data) and os.path.samefile(data, dlis_file_name):
                 raise ValueError(f"The source data file {data} cannot be overwritten with the produced DLIS file")
 
+            if global_config.high_compat_mode:
+                validate_string(self.storage_unit_label.set_identifier)  # might have been reassigned
+
             for lf in self.logical_files:
                 lf.check_objects()
 
@@ -2201,6 +2205,7 @@ class LogicalFile:
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
         self._check_identities_and_references()
+        self._check_names()
 
     @contextmanager
     def preserve_specification(self) -> Generator:
@@ -2225,6 +2230,14 @@ class LogicalFile:
                 items.extend(eflr_set.get_all_eflr_items())
         return items
 
+    def _check_names(self) -> None:
+        """In high-compatibility mode, check the header ID and names of all objects (might have been reassigned)."""
+
+        if global_config.high_compat_mode:
+            validate_string(self.file_header.header_id)
+            for item in self._get_all_items():
+                validate_string(item.name)
+
     def _check_identities_and_references(self) -> None:
         """Check that the objects can be told apart and all references point to objects of this logical file."""
 
diff --git a/src/dliswriter/utils/internal/value_checkers.py b/src/dliswriter/utils/internal/value_checkers.py
index 05f5b4f..3ecebfb 100644
--- a/src/dliswriter/utils/internal/value_checkers.py
+++ b/src/dliswriter/utils/internal/value_checkers.py
@@ -1,9 +1,13 @@
+import logging
 import re
 from typing import Union
 
 from dliswriter.configuration import global_config
 
 
+logger = logging.getLogger(__name__)
+
+
 HC_STRING_PATTERN = re.compile(r"[A-Z0-9_-]+")
 
 
@@ -18,12 +22,12 @@ def validate_string(s: str) -> str:
     if not isinstance(s, str):
         raise TypeError(f"Expected a str, got {type(s)}: {s}")
 
-    if not global_config.high_compat_mode:
-        return s
-
     if HC_STRING_PATTERN.fullmatch(s) is None:
-        raise ValueError("In high-compatibility mode, strings can contain only uppercase characters, digits, "
-                         f"dashes, and underscores; got {repr(s)}")
+        if global_config.high_compat_mode:
+            raise ValueError("In high-compatibility mode, strings can contain only uppercase characters, digits, "
+                             f"dashes, and underscores; got {repr(s)}")
+        logger.warning("Some DLIS viewers can only handle strings containing uppercase characters, digits, "
+                       f"dashes, and underscores; got {repr(s)}")
 
     return s
 
-- 
2.43.0


From 1249660396900279009969caff64f6ae8aac97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 29/35] fix: do not replace an empty channel long name set by
 the user

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index e2a964d..a96e1f3 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -216,7 +216,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         self._check_axis_vs_dimension()
 
-        if not self.long_name.value:
+        if self.long_name.value is None:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
             self.long_name.value = self.name
 
-- 
2.43.0


From 49d107283a962d42e52a2afc55e1a3f393a644b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:55 +0000
Subject: [PATCH 30/35] fix: refuse UVARI values beyond 2**30 - 1 also if they
 are numpy unsigned integers

---
 src/dliswriter/utils/internal/struct_writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index f6d3767..155bbf7 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -11,6 +11,7 @@ if TYPE_CHECKING:
 UNORM_OFFSET = 32768        #: offset added to values packed as UNORM; '10' and 14 zeros
 ULONG_OFFSET = 3221225472   #: offset added to values packed as ULONG; 11 and 30 zeros
 
+MAX_UVARI = 2 ** 30 - 1     #: maximal value which can be stored with UVARI representation code
 MAX_IDENT_LENGTH = 255      #: maximal number of characters in an identifier; its length is stored as USHORT
 
 
@@ -107,6 +108,9 @@ def write_struct_uvari(value: int) -> bytes:
     if value < 16384:
         return RepresentationCode.UNORM.convert(value + UNORM_OFFSET)
 
+    if value > MAX_UVARI:  # numpy unsigned integers would wrap around when the offset is added
+        raise ValueError(f"UVARI values cannot be larger than {MAX_UVARI}; got {value}")
+
     # >= 16384
     return RepresentationCode.ULONG.convert(value + ULONG_OFFSET)
 
-- 
2.43.0


From ed69ffb4734ec5c4fc9631e1526e0271d6d1a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:24 +0000
Subject: [PATCH 31/35] fix: refuse sequence numbers which are not numbers

The storage unit label (and the file header, for a bool) was written with
e.g. '   x', 'None' or 'True' as its sequence number, which no reader can decode.
---
 .../logical_record/eflr_types/file_header.py   |  4 ++--
 .../logical_record/misc/storage_unit_label.py  |  4 ++--
 src/dliswriter/utils/internal/converters.py    | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index a4ac020..94cc714 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -6,7 +6,7 @@ Unless otherwise specified, all quotes in this file come from the RP66 v1 standa
 
 from typing import Any
 
-from dliswriter.utils.internal.converters import get_ascii_bytes
+from dliswriter.utils.internal.converters import get_ascii_bytes, get_sequence_number_bytes
 from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import RepresentationCode, EFLRType
 from dliswriter.logical_record.core.eflr import EFLRSet, EFLRItem
@@ -85,7 +85,7 @@ class FileHeaderItem(EFLRItem):
 
         bts += pack_ushort(int('00100001', 2))
         bts += pack_ushort(10)
-        bts += get_ascii_bytes(str(self.sequence_number), 10, justify_left=False)
+        bts += get_sequence_number_bytes(self.sequence_number, 10)
         bts += pack_ushort(int('00100001', 2))
         bts += pack_ushort(65)
         bts += get_ascii_bytes(self.header_id, 65, justify_left=True)
diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 7dc54c6..5745705 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -1,6 +1,6 @@
 from typing import Any
 
-from dliswriter.utils.internal.converters import get_ascii_bytes
+from dliswriter.utils.internal.converters import get_ascii_bytes, get_sequence_number_bytes
 from dliswriter.logical_record.core.logical_record import LogicalRecordBytes
 from dliswriter.utils.internal.value_checkers import validate_string
 
@@ -73,7 +73,7 @@ class StorageUnitLabel:
         """
 
         # Storage Unit Sequence Number
-        _susn_as_bytes = get_ascii_bytes(str(self.sequence_number), 4)
+        _susn_as_bytes = get_sequence_number_bytes(self.sequence_number, 4)
 
         # DLIS Version
         _dlisv_as_bytes = get_ascii_bytes(self.dlis_version, 5, justify_left=True)
diff --git a/src/dliswriter/utils/internal/converters.py b/src/dliswriter/utils/internal/converters.py
index 6c1f1f9..13bc63c 100644
--- a/src/dliswriter/utils/internal/converters.py
+++ b/src/dliswriter/utils/internal/converters.py
@@ -32,6 +32,24 @@ def get_ascii_bytes(value: str, required_length: int, justify_left: bool = False
     return padded_value.encode('ascii')
 
 
+def get_sequence_number_bytes(value: int, required_length: int) -> bytes:
+    """Encode a sequence number as ASCII digits, with preceding blanks.
+
+    Args:
+        value           :   Sequence number to convert.
+        required_length :   Required length of the string.
+
+    Returns:
+        ASCII encoded bytes.
+    """
+
+    text = str(int(value)) if isinstance(value, int) else str(value)  # str(True) is not a number
+    if not (text.isascii() and text.isdigit()):
+        raise ValueError(f"Sequence number must be a non-negative integer; got {repr(value)}")
+
+    return get_ascii_bytes(text, required_length)
+
+
 def _filter_codes(cond: Callable) -> tuple[RepresentationCode, ...]:
     """Return a tuple containing all representation codes fulfilling a certain condition ('cond')."""
 
-- 
2.43.0


From 7de03aca309535f9010881df6e9a37e51f7049f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:24 +0000
Subject: [PATCH 32/35] fix: refuse objects whose name was replaced by
 something that is not a str

It was written as its str(), e.g. b'NAME' as "b'NAME'".
---
 src/dliswriter/file/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 0172e26..cf3227d 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -2247,6 +2247,9 @@ class LogicalFile:
 
         identities: set[tuple] = set()
         for item in items:
+            if not isinstance(item.name, str):  # might have been reassigned
+                raise TypeError(f"Name of a {item.__class__.__name__} must be a str; got {type(item.name)}: {item.name}")
+
             identity = (item.parent.set_type, item.origin_reference, item.copy_number, item.name)
             if identity in identities:
                 raise RuntimeError(f"There are multiple objects with the same set type, origin reference, "
-- 
2.43.0


From 66df5a05af3f8546f51870894916d938aa314e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:28 +0000
Subject: [PATCH 33/35] fix: set_attributes which raises leaves all attributes
 as they were

---
 .../logical_record/core/eflr/eflr_item.py     | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 5a227a6..f35b5ec 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -221,19 +221,26 @@ class EFLRItem:
             logger.debug(f"Setting {_attr.label}.{_key} of {self} to {repr(_value)}")
             setattr(_attr, _key, _value)
 
-        for attr_name, attr_value in kwargs.items():
-            attr = getattr(self, attr_name, None)
-            if not attr or not isinstance(attr, Attribute):
-                raise AttributeError(f"{self.__class__.__name__} does not have attribute '{attr_name}'")
+        state = EFLRItem.get_state(self)
 
-            if isinstance(attr_value, (dict, AttrSetup)):
-                for key, value in attr_value.items():
-                    if key not in ('value', 'units'):
-                        raise ValueError(f"Cannot set {key} of a(n) {attr.__class__.__name__}")
-                    set_value(attr, value, key)
-
-            else:
-                set_value(attr, attr_value)
+        try:
+            for attr_name, attr_value in kwargs.items():
+                attr = getattr(self, attr_name, None)
+                if not attr or not isinstance(attr, Attribute):
+                    raise AttributeError(f"{self.__class__.__name__} does not have attribute '{attr_name}'")
+
+                if isinstance(attr_value, (dict, AttrSetup)):
+                    for key, value in attr_value.items():
+                        if key not in ('value', 'units'):
+                            raise ValueError(f"Cannot set {key} of a(n) {attr.__class__.__name__}")
+                        set_value(attr, value, key)
+
+                else:
+                    set_value(attr, attr_value)
+
+        except BaseException:
+            EFLRItem.restore_state(self, state)  # do not set some of the attributes only
+            raise
 
     def get_state(self) -> dict:
         """Get the current values and units of all attributes of the item."""
-- 
2.43.0


From 082dc18550ae3c34bd7cd7d26083f5d530611f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:25 +0000
Subject: [PATCH 34/35] fix: keep empty channel names in chunks of data

---
 src/dliswriter/utils/source_data_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 22c85ab..094b67c 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -131,7 +131,8 @@ class SourceDataWrapper(ABC):
                 dt = (*dt, dset_row0.shape[-1])  # 3-tuple if the data set has multiple samples per row - add the width
             dtypes.append(dt)
 
-        return np.dtype(dtypes)
+        # a list of tuples would not do here: numpy replaces an empty name in it by a default one ('f0', 'f1' etc.)
+        return np.dtype({'names': [dt[0] for dt in dtypes], 'formats': [dt[1] if len(dt) == 2 else dt[1:] for dt in dtypes]})
 
     def __getitem__(self, item: str) -> np.ndarray:
         """Retrieve a dataset of the given name from the dataset.
-- 
2.43.0


From bbfe363fc6c3cae536bd88fe842719006b5aa380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:39 +0000
Subject: [PATCH 35/35] fix: reject fractions of any number type as a status
 value

---
 src/dliswriter/logical_record/core/attribute/subtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index cef2ff0..4027bb2 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -306,7 +306,7 @@ class StatusAttribute(Attribute):
         if isinstance(val, bool):
             return int(val)
 
-        if isinstance(val, float) and val % 1:
+        if not isinstance(val, (str, bytes, bytearray)) and val % 1:
             raise ValueError(f"Status cannot be a fraction; got {val}")
 
         val = int(val)
-- 
2.43.0

