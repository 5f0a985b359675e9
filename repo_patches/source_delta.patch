From e3763ed241e8c9a64e3af4de90a69a7cd5f4e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:57 +0000
Subject: [PATCH 001/181] fix: reject negative values in CPIO file entry
 headers

A negative size in an ASCII header made the size of a file entry 0, so that
reading the archive never terminated.
---
 dtformats/cpio.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index c11c9b7..baaccb9 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -219,6 +219,11 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                         )
                     )
 
+                if value < 0:
+                    raise errors.ParseError(
+                        f"Invalid attribute: {attribute_name:s} value out of bounds"
+                    )
+
                 value = setattr(file_entry, attribute_name, value)
 
         elif self.file_format in ("crc", "newc"):
@@ -234,6 +239,11 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                         )
                     )
 
+                if value < 0:
+                    raise errors.ParseError(
+                        f"Invalid attribute: {attribute_name:s} value out of bounds"
+                    )
+
                 value = setattr(file_entry, attribute_name, value)
 
         if self._debug:
-- 
2.43.0


From c340b16baabce2ed14b4ea2629c4f0f4d3d7f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:57 +0000
Subject: [PATCH 002/181] fix: raise ParseError on a CPIO path that is not
 ASCII

---
 dtformats/cpio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index baaccb9..c02a02f 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -257,7 +257,11 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         file_offset += file_entry.path_size
 
         # TODO: should this be ASCII?
-        path = path_data.decode("ascii")
+        try:
+            path = path_data.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(f"Unable to decode path with error: {exception!s}")
+
         path, _, _ = path.partition("\x00")
 
         if self._debug:
-- 
2.43.0


From 27d25d1c30b96c42d9684c0b45914683ce36e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:57 +0000
Subject: [PATCH 003/181] fix: return None if a CPIO archive without file
 entries has no file entry for a path

---
 dtformats/cpio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index c02a02f..067f560 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -398,7 +398,7 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
           CPIOArchiveFileEntry: CPIO archive file entry or None.
         """
         if not self._file_entries:
-            return False
+            return None
 
         return self._file_entries.get(path)
 
-- 
2.43.0


From 2f4c590aeba7a5c7bd85cd683d5b4df09fe58334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:11 +0000
Subject: [PATCH 004/181] fix: do not read past the end of a data range on a
 negative size

A negative size was passed to the parent file-like object, which then returned
all of its remaining data, including data outside of the data range.
---
 dtformats/data_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index e46e42d..7596555 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -56,7 +56,7 @@ class DataRange:
         if self._current_offset >= self.data_size:
             return b""
 
-        if size is None:
+        if size is None or size < 0:
             size = self.data_size
         if self._current_offset + size > self.data_size:
             size = self.data_size - self._current_offset
-- 
2.43.0


From 42311e473a628653d877d69d41cb082cb1db84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 005/181] fix: raise ParseError if the offset or size of data
 to read is out of bounds

An offset or size that is negative or too large, such as one read from
a corrupt file, raised ValueError, OSError or OverflowError instead.
---
 dtformats/data_format.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 0646983..b7c28b3 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -607,11 +607,17 @@ class BinaryDataFormat:
         if not file_object:
             raise ValueError("Missing file-like object.")
 
-        file_object.seek(file_offset, os.SEEK_SET)
+        if file_offset < 0 or data_size < 0:
+            raise errors.ParseError(
+                f"Unable to read {description:s} data at offset: {file_offset:d} of "
+                f"size: {data_size:d} value out of bounds"
+            )
 
         read_error = ""
 
         try:
+            file_object.seek(file_offset, os.SEEK_SET)
+
             data = file_object.read(data_size)
             read_count = len(data)
 
@@ -620,7 +626,7 @@ class BinaryDataFormat:
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
 
-        except OSError as exception:
+        except (OSError, OverflowError) as exception:
             read_error = f"{exception!s}"
 
         if read_error:
-- 
2.43.0


From 6722bed4d32ba3b3ee637c2238321ac091ad0c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 006/181] fix: raise ParseError on an ASL file with a cycle of
 records

A record that refers to itself, or to an earlier record, could make reading
the file never terminate.
---
 dtformats/asl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/asl.py b/dtformats/asl.py
index 9d90156..7806a9e 100644
--- a/dtformats/asl.py
+++ b/dtformats/asl.py
@@ -259,7 +259,14 @@ class AppleSystemLogFile(data_format.BinaryDataFile):
 
         if file_header.first_log_entry_offset > 0:
             file_offset = file_header.first_log_entry_offset
+            record_offsets = set()
             while file_offset < self._file_size:
+                if file_offset in record_offsets:
+                    raise errors.ParseError(
+                        f"Record at offset: 0x{file_offset:08x} already read."
+                    )
+
+                record_offsets.add(file_offset)
                 file_offset = self._ReadRecord(file_object, file_offset)
                 if file_offset == 0:
                     break
-- 
2.43.0


From 2e0f953b0cb766539aa11c9fc09465c1edb002df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:59 +0000
Subject: [PATCH 007/181] fix: format the offsets and hashes of systemd journal
 objects as text

The formatting function returns a tuple, which was printed as is.
---
 dtformats/systemd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 040f9d1..800a7a0 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -84,13 +84,13 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_item in enumerate(entry_items):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
             line = self._FormatValue(
                 f"    Entry item: {index:d} object offset", value_string
             )
             lines.append(line)
 
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.hash)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.hash)
             line = self._FormatValue(f"    Entry item: {index:d} hash", value_string)
             lines.append(line)
 
@@ -107,7 +107,7 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_object_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_object_offset)
             line = self._FormatValue(
                 f"    Entry object offset: {index:d}", value_string
             )
-- 
2.43.0


From 661314618380cdb8a98fc6b387457959646d1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:59 +0000
Subject: [PATCH 008/181] fix: print the data size of systemd journal objects

The debug definition referred to an attribute that does not exist.
---
 dtformats/systemd.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/systemd.debug.yaml b/dtformats/systemd.debug.yaml
index 6e09977..9a3c187 100644
--- a/dtformats/systemd.debug.yaml
+++ b/dtformats/systemd.debug.yaml
@@ -137,6 +137,6 @@ attributes:
 - name: reserved1
   description: "Reserved"
   format: binary_data
-- name: data_sizes
+- name: data_size
   description: "Data size"
   format: decimal
-- 
2.43.0


From 71a61094d0d7c4d8f5b1306987ce026cbf2022b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:43 +0000
Subject: [PATCH 009/181] fix: raise ParseError on a systemd journal file with
 a cycle of entry arrays

An entry array that refers to itself, or to an earlier entry array, made
reading the file never terminate.
---
 dtformats/systemd.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 800a7a0..7ddb9b7 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -357,10 +357,20 @@ class SystemdJournalFile(data_format.BinaryDataFile):
             file_object, file_header.entry_array_offset
         )
 
+        entry_array_offsets = set([file_header.entry_array_offset])
+
         entry_object_offsets = list(entry_array_object.entry_object_offsets)
         while entry_array_object.next_entry_array_offset != 0:
+            entry_array_offset = entry_array_object.next_entry_array_offset
+            if entry_array_offset in entry_array_offsets:
+                raise errors.ParseError(
+                    f"Entry array at offset: 0x{entry_array_offset:08x} already read."
+                )
+
+            entry_array_offsets.add(entry_array_offset)
+
             entry_array_object = self._ReadEntryArrayObject(
-                file_object, entry_array_object.next_entry_array_offset
+                file_object, entry_array_offset
             )
             entry_object_offsets.extend(entry_array_object.entry_object_offsets)
 
-- 
2.43.0


From a6c1f7aa9973fdc410b1fa02275f7adc6629c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:50 +0000
Subject: [PATCH 010/181] fix: raise ParseError if an offset does not fit an
 offset-sized integer

Seeking a buffered file raises ValueError in that case.
---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index b7c28b3..af0e336 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -626,7 +626,7 @@ class BinaryDataFormat:
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
 
-        except (OSError, OverflowError) as exception:
+        except (OSError, OverflowError, ValueError) as exception:
             read_error = f"{exception!s}"
 
         if read_error:
-- 
2.43.0


From d95ea6fd10fd24c99023f6d7f729295f282376c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:41 +0000
Subject: [PATCH 011/181] fix: raise ParseError if the size of data to read
 does not fit in memory

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index af0e336..04ecc82 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -626,7 +626,7 @@ class BinaryDataFormat:
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
 
-        except (OSError, OverflowError, ValueError) as exception:
+        except (MemoryError, OSError, OverflowError, ValueError) as exception:
             read_error = f"{exception!s}"
 
         if read_error:
-- 
2.43.0


From 5c8bcf38a0c6aed519653256c672d070e6c621ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:48 +0000
Subject: [PATCH 012/181] fix: raise ParseError on a read error that has no
 message

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 04ecc82..5b3f0a5 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -627,7 +627,7 @@ class BinaryDataFormat:
                 )
 
         except (MemoryError, OSError, OverflowError, ValueError) as exception:
-            read_error = f"{exception!s}"
+            read_error = f"{exception!s}" or type(exception).__name__
 
         if read_error:
             raise errors.ParseError(
-- 
2.43.0


From d03825ad0f5f99793809d4b70a8844ffc42e2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:28 +0000
Subject: [PATCH 013/181] fix: read a Safari cookies file without pages and
 bound the read of its page sizes

---
 dtformats/safari_cookies.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 96fdb22..3d2d82c 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -137,11 +137,16 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         # TODO: check for upper limit.
         page_sizes_data_size = file_header.number_of_pages * 4
 
-        page_sizes_data = file_object.read(page_sizes_data_size)
-
+        page_sizes_data = self._ReadData(
+            file_object, file_offset, page_sizes_data_size, "page sizes"
+        )
         if self._debug:
             self._DebugPrintData("Page sizes data", page_sizes_data)
 
+        self._page_sizes = []
+        if file_header.number_of_pages == 0:
+            return
+
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"binarycookies_file_header": file_header}
         )
@@ -161,16 +166,14 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
                 f"error: {exception!s}"
             )
 
-        self._page_sizes = []
-        if file_header.number_of_pages > 0:
-            for index, page_size in enumerate(page_sizes_array):
-                self._page_sizes.append(page_size)
-
-                if self._debug:
-                    self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+        for index, page_size in enumerate(page_sizes_array):
+            self._page_sizes.append(page_size)
 
             if self._debug:
-                self._DebugPrintText("\n")
+                self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+
+        if self._debug:
+            self._DebugPrintText("\n")
 
     def _ReadPage(self, file_object, file_offset, page_size):
         """Reads a page.
-- 
2.43.0


From 9d082b163755a02993b1824057d1c8041a17a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:28 +0000
Subject: [PATCH 014/181] fix: print Safari cookie timestamps that are not a
 date

---
 dtformats/safari_cookies.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 3d2d82c..fcb9b41 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -53,20 +53,32 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Value offset", f"{record_header.value_offset:d}")
         self._DebugPrintValue("Unknown3", f"0x{record_header.unknown3:08x}")
 
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.expiration_time)
-        )
-        self._DebugPrintValue(
-            "Expiration time", f"{date_time!s} ({record_header.expiration_time:f})"
-        )
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.creation_time)
-        )
-        self._DebugPrintValue(
-            "Creation time", f"{date_time!s} ({record_header.creation_time:f})"
-        )
+        value_string = self._FormatCocoaTime(record_header.expiration_time)
+        self._DebugPrintValue("Expiration time", value_string)
+
+        value_string = self._FormatCocoaTime(record_header.creation_time)
+        self._DebugPrintValue("Creation time", value_string)
+
         self._DebugPrintText("\n")
 
+    def _FormatCocoaTime(self, timestamp):
+        """Formats a Cocoa timestamp.
+
+        Args:
+          timestamp (float): number of seconds since January 1, 2001.
+
+        Returns:
+          str: formatted Cocoa timestamp.
+        """
+        try:
+            date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
+                seconds=int(timestamp)
+            )
+        except (OverflowError, ValueError):
+            return f"{timestamp:f}"
+
+        return f"{date_time!s} ({timestamp:f})"
+
     def _ReadCString(self, page_data, string_offset):
         """Reads a string from the page data.
 
-- 
2.43.0


From 48272744d41079f93bcd3b90d614ca6bedb90c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:28 +0000
Subject: [PATCH 015/181] fix: print the file header of a Recycler INFO2 file

---
 dtformats/recycler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 8bb6783..4961b56 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -117,7 +117,7 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
             file_object, 0, data_type_map, "file header"
         )
         if self._debug:
-            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_entry", None)
+            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_header", None)
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if file_header.file_entry_size not in (280, 800):
-- 
2.43.0


From 50a9dc1f48e038ee8d1eb73a0f019a9013b8ee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:28 +0000
Subject: [PATCH 016/181] fix: print the IP address of an utmp entry as text

---
 dtformats/utmp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index 311b1ca..2ee72c1 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -64,11 +64,11 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         if entry.ip_address[4:] == self._EMPTY_IP_ADDRESS[4:]:
-            value_string = self._FormatArrayOfIntegersAsIPv4Address(
+            value_string, _ = self._FormatArrayOfIntegersAsIPv4Address(
                 entry.ip_address[:4]
             )
         else:
-            value_string = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
+            value_string, _ = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
 
         self._DebugPrintValue("IP address", value_string)
 
-- 
2.43.0


From 80cc25795905c75270820d08d82f49ca43fd1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:28 +0000
Subject: [PATCH 017/181] fix: print utmp and utmpx entries with a string that
 is not UTF-8

---
 dtformats/utmp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index 2ee72c1..11a067f 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -40,17 +40,17 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("PID", f"{entry.pid:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintValue("Termination status", f"0x{entry.termination_status:04x}")
@@ -150,13 +150,13 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
           entry (macosx_utmpx_entry): entry.
         """
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
@@ -173,7 +173,7 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintData("Unknown2", entry.unknown2)
-- 
2.43.0


From 87431b22779c29f83edd11b1d75338f5b99e5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:28 +0000
Subject: [PATCH 018/181] fix: print the minor product version of a Windows
 Task Scheduler job file

---
 dtformats/job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index c78b96d..6af46a7 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -121,7 +121,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
           str: integer formatted as a product version.
         """
         major_version = (integer >> 8) & 0xFF
-        minor_version = (integer >> 8) & 0xFF
+        minor_version = integer & 0xFF
         return f"0x{integer:04x} ({major_version:d}.{minor_version:d})"
 
     def _FormatString(self, string):
-- 
2.43.0


From 20bca7d615d1f43ce9664ed8f0cf6e836dd2bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:47 +0000
Subject: [PATCH 019/181] fix: read the USN records in every block of a USN
 change journal

---
 dtformats/usn_journal.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dtformats/usn_journal.py b/dtformats/usn_journal.py
index bbd2345..1750f8c 100644
--- a/dtformats/usn_journal.py
+++ b/dtformats/usn_journal.py
@@ -64,22 +64,21 @@ class USNRecords(data_format.BinaryDataFile):
         Raises:
           ParseError: if a record cannot be read.
         """
-        self._file_object.seek(0, os.SEEK_SET)
-
         file_offset = 0
         while file_offset < self._file_size:
-            block_size = min(4096, self._file_size)
+            block_size = min(4096, self._file_size - file_offset)
 
             while block_size > 60:
+                self._file_object.seek(file_offset, os.SEEK_SET)
                 usn_record_header = self._file_object.read(60)
                 if usn_record_header == self._EMPTY_USN_RECORD_HEADER:
                     break
 
-                self._file_object.seek(-60, os.SEEK_CUR)
+                self._file_object.seek(file_offset, os.SEEK_SET)
                 usn_record, data_size = self._ReadRecordV2(self._file_object)
                 yield usn_record
 
                 file_offset += data_size
                 block_size -= data_size
 
-            file_offset += block_size
+            file_offset += max(0, block_size)
-- 
2.43.0


From cef135d7e5b28d1293d6a7684ec38614f2d831a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:24 +0000
Subject: [PATCH 020/181] fix: raise ParseError if a restore point rp.log file
 is too small

---
 dtformats/rp_log.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index 00cdd19..00cb293 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -119,8 +119,9 @@ class RestorePointLogFile(data_format.BinaryDataFile):
         """
         self._ReadFileHeader(file_object)
 
-        data_size = (self._file_size - 8) - file_object.tell()
-        data = file_object.read(data_size)
+        file_offset = file_object.tell()
+        data_size = (self._file_size - 8) - file_offset
+        data = self._ReadData(file_object, file_offset, data_size, "unknown1")
         self._DebugPrintData("Unknown1", data)
 
         self._ReadFileFooter(file_object)
-- 
2.43.0


From 3d2a7d855efad3f65b9409c8b965a8d1516501ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:24 +0000
Subject: [PATCH 021/181] fix: raise ParseError if a change.log record is
 truncated or too small

---
 dtformats/rp_change_log.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 00d66c4..d215e75 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -210,8 +210,10 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         # TODO: refactor to use size hints
         record_size = change_log_entry_record.record_size - data_size
-        record_data = file_object.read(record_size)
         file_offset += data_size
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "change log entry record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
@@ -335,7 +337,9 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         file_offset = file_header_data_size
         record_size = file_header.record_size - file_header_data_size
-        record_data = file_object.read(record_size)
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "file header record"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
-- 
2.43.0


From 4df71614e5eb46b049efcc2cf74cf8f4589daa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:24 +0000
Subject: [PATCH 022/181] fix: keep the last character of the process name of a
 change.log entry

---
 dtformats/rp_change_log.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index d215e75..58a7578 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -238,9 +238,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             )
 
         if self._debug:
-            self._DebugPrintValue(
-                "Process name", change_log_entry_record2.process_name[:-1]
-            )
+            self._DebugPrintValue("Process name", change_log_entry_record2.process_name)
 
             self._DebugPrintText("\n")
 
@@ -251,7 +249,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             change_log_entry_record.file_attribute_flags
         )
         change_log_entry.sequence_number = change_log_entry_record.sequence_number
-        change_log_entry.process_name = change_log_entry_record2.process_name[:-1]
+        change_log_entry.process_name = change_log_entry_record2.process_name
 
         sub_record_data_offset = context.byte_size
         sub_record_data_size = record_size - 4
-- 
2.43.0


From 599d3fc045cbb6d714d7a8dca6c46168750429c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:24 +0000
Subject: [PATCH 023/181] fix: only read a string from change.log sub records
 that have one

---
 dtformats/rp_change_log.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 58a7578..4943c68 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -416,17 +416,17 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
         if record_header.record_type in (4, 5, 9):
             data_type_map = self._GetDataTypeMap("utf16le_string")
 
-        try:
-            value_string = self._ReadStructureFromByteStream(
-                record_data[record_data_offset:],
-                record_data_offset,
-                data_type_map,
-                "value string",
-            )
-        except (ValueError, errors.ParseError) as exception:
-            raise errors.ParseError(
-                f"Unable to parse UTF-16 string with error: {exception!s}"
-            )
+            try:
+                value_string = self._ReadStructureFromByteStream(
+                    record_data[record_data_offset:],
+                    record_data_offset,
+                    data_type_map,
+                    "value string",
+                )
+            except (ValueError, errors.ParseError) as exception:
+                raise errors.ParseError(
+                    f"Unable to parse UTF-16 string with error: {exception!s}"
+                )
 
         # TODO: add support for other record types.
         # TODO: store record values in runtime objects.
-- 
2.43.0


From 1f024d47857c2b05c6a07ab9a43bc5340812e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:24 +0000
Subject: [PATCH 024/181] fix: set the volume path of a change.log file

---
 dtformats/rp_change_log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 4943c68..2348afd 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -481,6 +481,8 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
                 f"Unsupported record type: {volume_path_record.record_type:d}"
             )
 
+        self.volume_path = volume_path_record.volume_path[:-1]
+
     def ReadFileObject(self, file_object):
         """Reads a Windows Restore Point change.log file-like object.
 
-- 
2.43.0


From 297e849cf4c069f67135b912e21ed1f46e45392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:24 +0000
Subject: [PATCH 025/181] fix: read the 64-bit time zone information after the
 32-bit time zone information

---
 dtformats/tzif.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 9532327..2385e49 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -96,11 +96,13 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         self._DebugPrintText("\n")
 
-    def _ReadFileHeader(self, file_object):
+    def _ReadFileHeader(self, file_object, file_offset=0):
         """Reads a file header.
 
         Args:
           file_object (file): file-like object.
+          file_offset (Optional[int]): offset of the file header relative to
+              the start of the file-like object.
 
         Returns:
           tzif_file_header: a file header.
@@ -111,7 +113,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tzif_file_header")
 
         file_header, _ = self._ReadStructureFromFileObject(
-            file_object, 0, data_type_map, "file header"
+            file_object, file_offset, data_type_map, "file header"
         )
 
         if self._debug:
@@ -282,7 +284,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the 64-bit time zone information cannot be read.
         """
-        file_header = self._ReadFileHeader(file_object)
+        file_header = self._ReadFileHeader(file_object, file_object.tell())
 
         self._ReadTransitionTimes64bit(file_object, file_header)
         self._ReadTransitionTimeIndex(file_object, file_header)
-- 
2.43.0


From 45c38b5fca207916738be74bb9c78d7ad70802de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:24 +0000
Subject: [PATCH 026/181] fix: read the leap second records of 64-bit time zone
 information

---
 dtformats/tzif.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 2385e49..6fcd09a 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -129,18 +129,19 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         return file_header
 
-    def _ReadLeapSecondRecords(self, file_object, file_header):
+    def _ReadLeapSecondRecords(self, file_object, file_header, record_size=8):
         """Reads the lead second records.
 
         Args:
           file_object (file): file-like object.
           file_header (tzif_file_header): file header.
+          record_size (Optional[int]): size of a leap second record.
 
         Raises:
           ParseError: if the leap second records cannot be read.
         """
         file_offset = file_object.tell()
-        data_size = 8 * file_header.number_of_leap_seconds
+        data_size = record_size * file_header.number_of_leap_seconds
 
         data = self._ReadData(
             file_object, file_offset, data_size, "leap second records"
@@ -290,7 +291,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
-        self._ReadLeapSecondRecords(file_object, file_header)
+        self._ReadLeapSecondRecords(file_object, file_header, record_size=12)
         self._ReadStandardTimeIndicators(file_object, file_header)
         self._ReadUTCTimeIndicators(file_object, file_header)
 
-- 
2.43.0


From 91cdb9d71ccf8454cf2028668186e085a9006885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:24 +0000
Subject: [PATCH 027/181] fix: read time zone information without transition
 times

---
 dtformats/tzif.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 6fcd09a..b4bb52b 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -210,6 +210,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
             file_object, file_offset, data_size, "transition time index"
         )
 
+        if not data:
+            return
+
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"tzif_file_header": file_header}
         )
@@ -314,6 +317,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
             file_object, file_offset, data_size, "32-bit transition times"
         )
 
+        if not data:
+            return
+
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"tzif_file_header": file_header}
         )
@@ -356,6 +362,9 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
             file_object, file_offset, data_size, "64-bit transition times"
         )
 
+        if not data:
+            return
+
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"tzif_file_header": file_header}
         )
-- 
2.43.0


From 6c20c0010fe556aa9dff48aa60bfdbcd09f5c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 028/181] fix: read GZip members without data and raise
 ParseError on corrupt data

---
 dtformats/gzipfile.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 422a310..d3f2569 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -44,34 +44,36 @@ class GZipFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[bytes, bytes]: decompressed data and remaining data.
+
+        Raises:
+          ParseError: if the compressed data cannot be decompressed.
         """
-        data_segments = []
-        while compressed_data:
+        try:
             data = zlib_decompressor.decompress(compressed_data)
-            if not data:
-                break
-
-            data_segments.append(data)
-            compressed_data = getattr(zlib_decompressor, "unused_data", b"")
+        except zlib.error as exception:
+            raise errors.ParseError(
+                f"Unable to decompress data with error: {exception!s}"
+            )
 
-        return b"".join(data_segments), compressed_data
+        return data, zlib_decompressor.unused_data
 
     def _ReadMemberCompressedData(self, file_object):
         """Reads a member compressed data.
 
         Args:
           file_object (file): file-like object.
+
+        Raises:
+          ParseError: if the compressed data cannot be read.
         """
         zlib_decompressor = zlib.decompressobj(-zlib.MAX_WBITS)
         compressed_data = file_object.read(self._BUFFER_SIZE)
         while compressed_data:
-            data, compressed_data = self._ReadCompressedData(
+            _, remaining_data = self._ReadCompressedData(
                 zlib_decompressor, compressed_data
             )
-            if compressed_data:
-                file_object.seek(-len(compressed_data), os.SEEK_CUR)
-
-            if not data:
+            if zlib_decompressor.eof:
+                file_object.seek(-len(remaining_data), os.SEEK_CUR)
                 break
 
             compressed_data = file_object.read(self._BUFFER_SIZE)
-- 
2.43.0


From 89b5b0e577cb8e112fecb7bf6b96945992f53f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 029/181] fix: raise ParseError on a CUPS IPP string that
 cannot be decoded

---
 dtformats/cups_ipp.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 3af6999..612772c 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -165,13 +165,15 @@ class CupsIppFile(data_format.BinaryDataFile):
             pass
 
         elif attribute.tag_value in self._STRING_WITHOUT_LANGUAGE_VALUES:
-            value = attribute.value_data.decode(self._last_charset_attribute)
+            value = self._ReadStringValue(
+                attribute.value_data, self._last_charset_attribute
+            )
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
 
         elif attribute.tag_value in self._ASCII_STRING_VALUES:
-            value = attribute.value_data.decode("ascii")
+            value = self._ReadStringValue(attribute.value_data, "ascii")
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
@@ -324,6 +326,26 @@ class CupsIppFile(data_format.BinaryDataFile):
             debug_info = self._DEBUG_INFORMATION.get("cups_ipp_header")
             self._DebugPrintStructureObject(header, debug_info)
 
+    def _ReadStringValue(self, byte_stream, encoding):
+        """Reads a string value.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          encoding (str): encoding of the string.
+
+        Returns:
+          str: string value.
+
+        Raises:
+          ParseError: when the string value cannot be read.
+        """
+        try:
+            return byte_stream.decode(encoding)
+        except (LookupError, ValueError) as exception:
+            raise errors.ParseError(
+                f"Unable to decode string value with error: {exception!s}"
+            )
+
     def ReadFileObject(self, file_object):
         """Reads a CUPS Internet Printing Protocol (IPP) file-like object.
 
-- 
2.43.0


From 19922532d910970562ea4667675efc575d795b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 030/181] fix: raise ParseError on a CUPS IPP date-time that is
 not a date and time

---
 dtformats/cups_ipp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 612772c..e153ec5 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -277,9 +277,14 @@ class CupsIppFile(data_format.BinaryDataFile):
             value.hours_from_utc,
             value.minutes_from_utc,
         )
-        return dfdatetime_rfc2579_date_time.RFC2579DateTime(
-            rfc2579_date_time_tuple=rfc2579_date_time_tuple
-        )
+        try:
+            return dfdatetime_rfc2579_date_time.RFC2579DateTime(
+                rfc2579_date_time_tuple=rfc2579_date_time_tuple
+            )
+        except ValueError as exception:
+            raise errors.ParseError(
+                f"Unsupported date-time value with error: {exception!s}"
+            )
 
     def _ReadIntegerValue(self, byte_stream, file_offset):
         """Reads an integer value.
-- 
2.43.0


From e34ca9655d76fd028df47dd1577752db4977005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:13 +0000
Subject: [PATCH 031/181] fix: do not use the character set of a previously
 read CUPS IPP file

---
 dtformats/cups_ipp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index e153ec5..1ee5bed 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -360,6 +360,8 @@ class CupsIppFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._last_charset_attribute = "ascii"
+
         self._ReadHeader(file_object)
         self._ReadAttributesGroup(file_object)
 
-- 
2.43.0


From cfb5de40d783d7224b03f5987d666b268109d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:26 +0000
Subject: [PATCH 032/181] fix: raise ParseError on a truncated LevelDB variable
 size integer

---
 dtformats/leveldb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4ba5e17..d6edb6c 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -84,9 +84,15 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
         data_size = len(data)
 
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
         bit_shift = 0
@@ -102,6 +108,9 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
             # TODO: check maximum size
 
+        if byte_value & 0x80:
+            raise errors.ParseError("Variable size integer data too small")
+
         return integer_value, bytes_read
 
     @abc.abstractmethod
-- 
2.43.0


From f49d234555288ad088fd366bdbf943a92e099031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:26 +0000
Subject: [PATCH 033/181] fix: print the record data size of a LevelDB log
 block

---
 dtformats/leveldb.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/leveldb.debug.yaml b/dtformats/leveldb.debug.yaml
index e9ae673..ffdeff6 100644
--- a/dtformats/leveldb.debug.yaml
+++ b/dtformats/leveldb.debug.yaml
@@ -5,7 +5,7 @@ attributes:
 - name: checksum
   description: "Checksum"
   format: hexadecimal_8digits
-- name: data_size
+- name: record_data_size
   description: "Record data size"
   format: decimal
 - name: record_type
-- 
2.43.0


From b91e2d314d867ae6766629b3e7857127f1b565d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:05 +0000
Subject: [PATCH 034/181] fix: raise ParseError on a LevelDB log value that
 exceeds its record

---
 dtformats/leveldb.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index d6edb6c..c233a52 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -208,6 +208,9 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         Raises:
           ParseError: if the value header cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing value header data")
+
         data_type_map = self._GetDataTypeMap("leveldb_log_value_header")
 
         value_header = self._ReadStructureFromByteStream(
@@ -235,6 +238,9 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(f"{description:s} size: {data_size:d} out of bounds")
+
         value_data = data[bytes_read : bytes_read + data_size]
 
         if self._debug:
@@ -433,9 +439,19 @@ class LevelDBDatabaseDescriptorFile(LevelDBDatabaseLogFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(
+                f"{description:s} string size: {data_size:d} out of bounds"
+            )
+
         string_data = data[bytes_read : bytes_read + data_size]
 
-        string_value = string_data.decode("utf-8")
+        try:
+            string_value = string_data.decode("utf-8")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode {description:s} string with error: {exception!s}"
+            )
 
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
-- 
2.43.0


From 962fc88e7ca1c84dac3d769119cf4b0aab165f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:05 +0000
Subject: [PATCH 035/181] fix: raise ParseError on a LevelDB table block that
 cannot be decompressed

---
 dtformats/leveldb.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index c233a52..6558289 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -524,10 +524,20 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
             )
 
         if block_trailer.compression_type == 1:
-            block_data = snappy.decompress(block_data)
+            try:
+                block_data = snappy.decompress(block_data)
+            except Exception as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress block data with error: {exception!s}"
+                )
 
         elif block_trailer.compression_type == 2:
-            block_data = zstd.decompress(block_data)
+            try:
+                block_data = zstd.decompress(block_data)
+            except Exception as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress block data with error: {exception!s}"
+                )
 
         return block_data
 
-- 
2.43.0


From b18dc11e919e5597422d6b6993719da191b3ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:05 +0000
Subject: [PATCH 036/181] fix: raise ParseError on a LevelDB table entry that
 exceeds its table

---
 dtformats/leveldb.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 6558289..772e47d 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -704,6 +704,9 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         data_type_map = self._GetDataTypeMap("uint32le")
         table_data_end_offset = table_data_size - 4
 
+        if table_data_end_offset < 0:
+            raise errors.ParseError("Table data too small")
+
         number_of_restart_values = self._ReadStructureFromByteStream(
             table_data[-4:],
             table_data_end_offset,
@@ -718,6 +721,11 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
         table_data_end_offset -= 4 * number_of_restart_values
 
+        if table_data_end_offset < 0:
+            raise errors.ParseError(
+                f"Number of restart values: {number_of_restart_values:d} out of bounds"
+            )
+
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"number_of_elements": number_of_restart_values}
         )
@@ -751,17 +759,17 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 self._DebugPrintValue("Offset", value_string)
 
             shared_key_data_size, bytes_read = self._ReadVariableSizeInteger(
-                table_data[data_offset:]
+                table_data[data_offset:table_data_end_offset]
             )
             data_offset += bytes_read
 
             non_shared_key_data_size, bytes_read = self._ReadVariableSizeInteger(
-                table_data[data_offset:]
+                table_data[data_offset:table_data_end_offset]
             )
             data_offset += bytes_read
 
             value_data_size, bytes_read = self._ReadVariableSizeInteger(
-                table_data[data_offset:]
+                table_data[data_offset:table_data_end_offset]
             )
             data_offset += bytes_read
 
@@ -781,6 +789,19 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                     f"Entry: {entry_index:d} value data size", value_string
                 )
 
+            if shared_key_data_size > len(shared_key_data):
+                raise errors.ParseError(
+                    f"Shared key data size: {shared_key_data_size:d} out of bounds"
+                )
+
+            if (
+                non_shared_key_data_size + value_data_size
+                > table_data_end_offset - data_offset
+            ):
+                raise errors.ParseError(
+                    f"Key and value data of table entry: {entry_index:d} out of bounds"
+                )
+
             key_data_size = non_shared_key_data_size
 
             key_data_end_offset = data_offset + key_data_size
-- 
2.43.0


From 2862e3157af1d585f86a6960bc2ee5d2815fb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:28 +0000
Subject: [PATCH 037/181] fix: raise ParseError on a truncated IndexedDB key

---
 dtformats/indexeddb.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dtformats/indexeddb.py b/dtformats/indexeddb.py
index c12e233..ebb7ee4 100644
--- a/dtformats/indexeddb.py
+++ b/dtformats/indexeddb.py
@@ -1,5 +1,6 @@
 """IndexedDB database files."""
 
+from dtformats import errors
 from dtformats import leveldb
 
 
@@ -40,7 +41,13 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
 
         Returns:
           tuple[tuple[int, int, int], int]: key prefix and number of bytes read.
+
+        Raises:
+          ParseError: if the key prefix cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing key prefix data")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -48,6 +55,12 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
         object_store_identifier = 0
         index_identifier = 0
 
+        key_prefix_size = (
+            4 + (byte_value >> 5) + ((byte_value & 0x1F) >> 2) + (byte_value & 0x03)
+        )
+        if key_prefix_size > len(data):
+            raise errors.ParseError("Key prefix data too small")
+
         bit_shift = 0
         for _ in range((byte_value >> 5) + 1):
             database_identifier |= data[bytes_read] << bit_shift
@@ -87,6 +100,9 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
             key_segments = [f"{value:d}" for value in key_prefix]
 
             if key_prefix == (0, 0, 0):
+                if bytes_read >= len(table_entry.key):
+                    raise errors.ParseError("Missing metadata type")
+
                 metadata_type = int(table_entry.key[bytes_read])
                 bytes_read += 1
 
-- 
2.43.0


From 46260f91b323ae84610e20bc72c95a21349e9e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 038/181] fix: print the file header and cache entries of a
 Chrome cache data block file

---
 dtformats/chrome_cache.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/chrome_cache.debug.yaml b/dtformats/chrome_cache.debug.yaml
index a19a4b6..00668b1 100644
--- a/dtformats/chrome_cache.debug.yaml
+++ b/dtformats/chrome_cache.debug.yaml
@@ -39,7 +39,7 @@ attributes:
   description: "User"
   format: custom:array_of_decimals
 ---
-data_type_map: chrome_cache_data_block_file_header
+data_type_map: chrome_cache_entry
 attributes:
 - name: hash
   description: "Hash"
-- 
2.43.0


From c24fde985cb351b21d8e767de318a4cb431ae043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 039/181] fix: print a Chrome cache address of an unknown file
 type

---
 dtformats/chrome_cache.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 6020080..9e86549 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -159,6 +159,12 @@ class CacheAddress:
                 f"file type: {file_type_description:s}, filename: {self.filename:s})"
             )
 
+        if self.filename is None:
+            return (
+                f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
+                f"file type: {file_type_description:s})"
+            )
+
         # TODO: print reserved bits.
         return (
             f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
-- 
2.43.0


From 922ae9474a40ddf159c66874c8dbe8adb21d75bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 040/181] fix: print Chrome cache timestamps that are not a
 date

---
 dtformats/chrome_cache.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 9e86549..5534f41 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -348,9 +348,13 @@ class DataBlockFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -527,9 +531,13 @@ class IndexFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -737,9 +745,13 @@ class ChromeCacheParser:
                     # TODO: print(f'Url\t\t: {cache_entry_key:s}')
                     _ = cache_entry_key
 
-                    date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-                        microseconds=cache_entry.creation_time
-                    )
+                    try:
+                        date_string = datetime.datetime(
+                            1601, 1, 1
+                        ) + datetime.timedelta(microseconds=cache_entry.creation_time)
+                    except OverflowError:
+                        date_string = f"0x{cache_entry.creation_time:08x}"
+
                     # print(f"Creation time\t: {date_string!s}")
 
                     # print("")
-- 
2.43.0


From 7dfd169b8c40094bc95d0e983c57a120e1b63478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 041/181] fix: read a Chrome cache directory

---
 dtformats/chrome_cache.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 5534f41..96e0ccf 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -679,7 +679,9 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath(path, "index")
+        path_segments = self._file_system_helper.SplitPath(path)
+
+        index_file_path = self._file_system_helper.JoinPath([*path_segments, "index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
@@ -690,8 +692,15 @@ class ChromeCacheParser:
         have_all_data_block_files = True
         for cache_address in index_file.index_table.values():
             if cache_address.filename not in data_block_files:
+                if cache_address.filename is None:
+                    logging.error(
+                        f"Cache address: 0x{cache_address.value:08x} missing filename."
+                    )
+                    have_all_data_block_files = False
+                    continue
+
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    path, cache_address.filename
+                    [*path_segments, cache_address.filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
@@ -719,7 +728,7 @@ class ChromeCacheParser:
                         break
 
                     data_file = data_block_files.get(cache_address.filename)
-                    if not data_file:
+                    if not data_file or cache_address.block_offset is None:
                         logging.warning(
                             f"Cache address: 0x{cache_address.value:08x} missing "
                             f"filename."
@@ -730,21 +739,6 @@ class ChromeCacheParser:
                     # print(f'Cache address\t: {cache_address_string:s}')
                     cache_entry = data_file.ReadCacheEntry(cache_address.block_offset)
 
-                    try:
-                        cache_entry_key = cache_entry.key.decode("ascii")
-                    except UnicodeDecodeError:
-                        logging.warning(
-                            f"Unable to decode cache entry key at cache address: "
-                            f"0x{cache_address.value:08x}. Characters that cannot be "
-                            f'decoded will be replaced with "?" or "\\ufffd".'
-                        )
-                        cache_entry_key = cache_entry.key.decode(
-                            "ascii", errors="replace"
-                        )
-
-                    # TODO: print(f'Url\t\t: {cache_entry_key:s}')
-                    _ = cache_entry_key
-
                     try:
                         date_string = datetime.datetime(
                             1601, 1, 1
-- 
2.43.0


From 4c05e8400525be9465bff1e06f4bae5061574841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 042/181] fix: do not keep the index table of a previously read
 Chrome cache index file

---
 dtformats/chrome_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 96e0ccf..54096c0 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -598,6 +598,8 @@ class IndexFile(data_format.BinaryDataFile):
         file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("uint32le")
 
+        self.index_table = {}
+
         cache_address_index = 0
         cache_address_data = file_object.read(4)
 
-- 
2.43.0


From 37cd5ce893ae9073e3bc29674fc567415d0e8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 043/181] fix: raise ParseError if a Chrome cache file is too
 small to have a signature

---
 dtformats/chrome_cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 54096c0..8375619 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -779,7 +779,10 @@ class ChromeCacheParser:
 
             try:
                 signature = self._UINT32LE.MapByteStream(signature_data)
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to signature with error: {exception!s}"
                 )
-- 
2.43.0


From e3fd592e295fdcd2918efb3276a86cf79cd46a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:46 +0000
Subject: [PATCH 044/181] fix: print the last block range of a Chrome cache
 allocation bitmap

---
 dtformats/chrome_cache.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 8375619..b8284d0 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -271,6 +271,16 @@ class DataBlockFile(data_format.BinaryDataFile):
                 value_32bit >>= 1
                 block_number += 1
 
+        if self._debug and in_block_range:
+            block_range_size = block_range_end - block_range_start
+            self._DebugPrintValue(
+                "Block range",
+                (
+                    f"{block_range_start:d} - {block_range_end:d} "
+                    f"({block_range_size:d})"
+                ),
+            )
+
     def _DebugPrintCacheEntryDataStreamSizes(self, array_of_integers):
         """Prints cache entry data stream sizes debug information.
 
-- 
2.43.0


From 930d24919d6d5f1fe01d2d00d52ac3ef7d31db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:05 +0000
Subject: [PATCH 045/181] fix: raise ParseError if an Automatic Destinations
 Jump List is not an OLECF file

---
 dtformats/jump_list.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 575ba62..7117620 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -241,9 +241,16 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         olecf_file = pyolecf.file()
-        olecf_file.open_file_object(file_object)
 
-        self._ReadDestList(olecf_file.root_item)
+        try:
+            olecf_file.open_file_object(file_object)
+            root_item = olecf_file.root_item
+        except OSError as exception:
+            raise errors.ParseError(
+                f"Unable to open OLECF file with error: {exception!s}"
+            )
+
+        self._ReadDestList(root_item)
 
         self._olecf_file = olecf_file
 
-- 
2.43.0


From 2ab83403093f377029d404b6efdd0bfa33b22a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:05 +0000
Subject: [PATCH 046/181] fix: print the name of a Custom Destinations Jump
 List category

---
 dtformats/jump_list.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/jump_list.debug.yaml b/dtformats/jump_list.debug.yaml
index 702d549..c664bce 100644
--- a/dtformats/jump_list.debug.yaml
+++ b/dtformats/jump_list.debug.yaml
@@ -14,7 +14,7 @@ attributes:
 - name: number_of_characters
   description: "Number of characters"
   format: decimal
-- name: cateogy_name
+- name: category_name
   description: "Category name"
   format: string
 - name: category_identifier
-- 
2.43.0


From 0835d6aff225df9d559b458a8c646a8ab2783a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:05 +0000
Subject: [PATCH 047/181] fix: do not keep the entries of a previously read
 Custom Destinations Jump List

---
 dtformats/jump_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 7117620..593d352 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -465,6 +465,8 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._entries = []
+
         file_header, file_offset = self._ReadFileHeader(file_object)
 
         data_type_map = self._GetDataTypeMap("custom_entry_header")
-- 
2.43.0


From 5ad5854745a04c47b1e4b1de201959e754bb231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:05 +0000
Subject: [PATCH 048/181] fix: stop reading Custom Destinations Jump List
 entries at the category footer

---
 dtformats/jump_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 593d352..7a4822a 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -521,6 +521,9 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
 
                 file_object.seek(file_offset, os.SEEK_SET)
 
+                if entry_header.guid[:4] == self._CATEGORY_FOOTER_SIGNATURE:
+                    break
+
             self._ReadCategoryFooter(file_object)
 
             file_offset += 4
-- 
2.43.0


From ccb698f5a1bf1234ae93e51b2fff6ede6c183d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:04 +0000
Subject: [PATCH 049/181] fix: identify a Custom Destinations Jump List entry
 by its file offset

---
 dtformats/jump_list.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 7a4822a..83d985d 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -414,11 +414,13 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
 
         return file_header, bytes_read
 
-    def _ReadJumpListEntry(self, file_object):
+    def _ReadJumpListEntry(self, file_object, file_offset):
         """Reads a jump list entry.
 
         Args:
           file_object (file): file-like object.
+          file_offset (int): offset of the LNK data relative to the start of
+              the file.
 
         Returns:
           JumpListEntry: a jump list entry.
@@ -426,7 +428,6 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the jump list entry cannot be read.
         """
-        file_offset = file_object.tell()
         if self._debug:
             self._DebugPrintText(f"Reading LNK file at offset: 0x{file_offset:08x}\n")
 
@@ -502,7 +503,9 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
                         data_offset=file_offset,
                         data_size=remaining_file_size,
                     )
-                    jump_list_entry = self._ReadJumpListEntry(data_range_file_object)
+                    jump_list_entry = self._ReadJumpListEntry(
+                        data_range_file_object, file_offset
+                    )
 
                     self._entries.append(jump_list_entry)
 
-- 
2.43.0


From 37a84a3f78747bba7883e378712aee13bd74acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:40 +0000
Subject: [PATCH 050/181] fix: do not close a jump list LNK file that could not
 be opened

---
 dtformats/jump_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 83d985d..96bf6a9 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -44,8 +44,10 @@ class JumpListEntry:
           file_object (file): file-like object that contains the LNK file
               entry data.
         """
-        self.lnk_file = pylnk.file()
-        self.lnk_file.open_file_object(file_object)
+        lnk_file = pylnk.file()
+        lnk_file.open_file_object(file_object)
+
+        self.lnk_file = lnk_file
 
 
 class AutomaticDestinationsFile(data_format.BinaryDataFile):
-- 
2.43.0


From 9284d982a6a854b9c27798aff6d370d9bcce36bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:02 +0000
Subject: [PATCH 051/181] fix: read the header token of a BSM event record once

---
 dtformats/bsm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ce1e2f1..6af4bb7 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -924,6 +924,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         header_record_size = token.record_size
         record_end_offset = file_offset + header_record_size
+
+        file_offset = file_object.tell()
+
         while file_offset < record_end_offset:
             token = self._ReadToken(file_object, file_offset)
 
-- 
2.43.0


From 3b19480f52b3346b9f537bbaae8c995bcc8b319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:02 +0000
Subject: [PATCH 052/181] fix: raise ParseError on a BSM event record without a
 trailer token

---
 dtformats/bsm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 6af4bb7..f876a6e 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -938,6 +938,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
             if token.token_type == self._TRAILER_TOKEN_TYPE:
                 break
 
+        if token.token_type != self._TRAILER_TOKEN_TYPE:
+            raise errors.ParseError("Missing trailer token.")
+
         if token.record_size != header_record_size:
             raise errors.ParseError(
                 "Mismatch of event record size between header and trailer token."
-- 
2.43.0


From bca536f8bac74b4799d4a708ac50f8c5f2dbf045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:02 +0000
Subject: [PATCH 053/181] fix: print a BSM exit token

---
 dtformats/bsm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index f876a6e..fe08d7d 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -783,6 +783,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x3C: "token exec_args",
         0x3D: "token exec_env",
         0x3E: "token attr32",
+        0x52: "token exit",
         0x60: "token zonename",
         0x71: "token arg64",
         0x72: "token return64",
-- 
2.43.0


From 08b403458e5d09cfbdf6156c4eee34e0a900ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:02 +0000
Subject: [PATCH 054/181] fix: print BSM tokens that have no debug information

---
 dtformats/bsm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index fe08d7d..90d0273 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -975,7 +975,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-            self._DebugPrintStructureObject(token, debug_info)
+            if debug_info:
+                self._DebugPrintStructureObject(token, debug_info)
 
         return token
 
-- 
2.43.0


From 4edfd6829bd18d63d3ba368bf9b97c699554e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:02 +0000
Subject: [PATCH 055/181] fix: raise ParseError on an unsupported BSM net type
 independent of debug output

---
 dtformats/bsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 90d0273..b3bec6e 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -972,6 +972,10 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if not token:
             raise errors.ParseError(f"Unsupported token type: {token_type:d}")
 
+        net_type = getattr(token, "net_type", None)
+        if net_type not in (None, 4, 16):
+            raise errors.ParseError(f"Unsupported net type: {net_type:d}")
+
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-- 
2.43.0


From a129a62b80babe6cd79d0f7f9db441ae33fc1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:02 +0000
Subject: [PATCH 056/181] fix: do not hang on printing a POSIX timestamp that
 is not a date

---
 dtformats/data_format.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 5b3f0a5..70d7659 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -406,6 +406,11 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        # Note that dfDateTime can take a very long time to determine a date that
+        # exceeds year 9999.
+        if not -62135596800 <= integer <= 253402300799:
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
-- 
2.43.0


From 385dc94bd53eb4efe508598f7c2595e0cf8865eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 057/181] fix: do not read past the end of a variable size
 structure

---
 dtformats/data_format.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 70d7659..dacd0fe 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -729,6 +729,13 @@ class BinaryDataFormat:
                 structure_values_object = data_type_map.MapByteStream(
                     data, context=context
                 )
+
+                # Note that the size hint can exceed the size of the structure.
+                if context.byte_size is not None and context.byte_size < data_size:
+                    data_size = context.byte_size
+                    data = data[:data_size]
+                    file_object.seek(file_offset + data_size, os.SEEK_SET)
+
                 if self._debug:
                     first_letter = description[0].upper()
                     self._DebugPrintData(
-- 
2.43.0


From 47e4b60193a1e881ab68e8b173fa5a86a3d8b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 058/181] fix: print keychain table, record and attribute value
 offsets

---
 dtformats/keychain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4ccfadf..9a08743 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -140,7 +140,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, record_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(record_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(record_offset)
             line = self._FormatValue(f"Record offset: {index:d}", value_string)
             lines.append(line)
 
@@ -158,7 +158,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if integer is None:
             return "NULL"
 
-        return self._FormatIntegerAsHexadecimal8(integer)
+        return f"0x{integer:08x}"
 
     def _FormatIntegerAsRecordType(self, integer):
         """Formats an integer as a record type.
@@ -183,7 +183,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, table_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(table_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(table_offset)
             line = self._FormatValue(f"Table offset: {index:d}", value_string)
             lines.append(line)
 
@@ -525,7 +525,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for index, attribute_value_offset in enumerate(attribute_value_offsets):
-                value_string = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
+                value_string, _ = self._FormatIntegerAsHexadecimal8(
+                    attribute_value_offset
+                )
                 self._DebugPrintValue(
                     f"Attribute value offset: {index:d}", value_string
                 )
-- 
2.43.0


From 02c02c2d2655e71bc9641337d6cc88797f08359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 059/181] fix: print the keychain records array offset

---
 dtformats/keychain.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/keychain.debug.yaml b/dtformats/keychain.debug.yaml
index 46658ea..947eef5 100644
--- a/dtformats/keychain.debug.yaml
+++ b/dtformats/keychain.debug.yaml
@@ -65,7 +65,7 @@ attributes:
 - name: number_of_records
   description: "Number of records"
   format: decimal
-- name: record_array_offset
+- name: records_array_offset
   description: "Record array offset"
   format: hexadecimal_8digits
 - name: unknown1
-- 
2.43.0


From 62323ebed647144e5c452a0efb43601cc9d29c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 060/181] fix: raise ParseError on a keychain schema attribute
 without a relation identifier

---
 dtformats/keychain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 9a08743..4e125db 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -674,6 +674,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintText("\n")
 
+        if relation_identifier is None:
+            raise errors.ParseError("Missing relation identifier.")
+
         table = tables.get(relation_identifier)
         if not table:
             raise errors.ParseError(
-- 
2.43.0


From 553f1c44a70bdbfb9ff012b9aae76a487474c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 061/181] fix: raise ParseError on a keychain attribute value
 offset that is out of bounds

---
 dtformats/keychain.py | 64 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4e125db..66ccf3b 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -189,6 +189,38 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         return "".join(lines)
 
+    def _GetAttributeValueData(
+        self,
+        attribute_values_data,
+        attribute_values_data_offset,
+        attribute_value_offset,
+        description,
+    ):
+        """Retrieves the data of an attribute value.
+
+        Args:
+          attribute_values_data (bytes): attribute values data.
+          attribute_values_data_offset (int): offset of the attribute values data
+              relative to the start of the record.
+          attribute_value_offset (int): offset of the attribute relative to
+              the start of the record.
+          description (str): description of the attribute value.
+
+        Returns:
+          bytes: data starting at the attribute value.
+
+        Raises:
+          ParseError: if the attribute value offset is out of bounds.
+        """
+        data_offset = attribute_value_offset - (attribute_values_data_offset + 1)
+        if data_offset < 0 or data_offset >= len(attribute_values_data):
+            raise errors.ParseError(
+                f"Unsupported {description:s} attribute value offset: "
+                f"0x{attribute_value_offset:08x} value out of bounds"
+            )
+
+        return attribute_values_data[data_offset:]
+
     def _ReadAttributeValueBinaryData(
         self,
         attribute_values_data,
@@ -224,8 +256,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -268,8 +304,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         date_time_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -312,8 +352,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         return self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -354,8 +398,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
-- 
2.43.0


From 1627a3ae3c63def1f45e4d31ee9bba4942116de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 062/181] fix: raise ParseError on a keychain record that is
 too small or truncated

---
 dtformats/keychain.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 66ccf3b..d018d6e 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -467,7 +467,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             record_data_offset = file_offset - record_offset
             record_data_size = record_header.data_size
-            record_data = file_object.read(record_data_size - record_data_offset)
+            record_data = self._ReadData(
+                file_object,
+                file_offset,
+                record_data_size - record_data_offset,
+                "record",
+            )
 
             if self._debug:
                 if record_header.key_data_size > 0:
@@ -552,7 +557,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         offsets_data_size = number_of_attribute_values * 4
 
-        offsets_data = file_object.read(offsets_data_size)
+        offsets_data = self._ReadData(
+            file_object,
+            file_offset,
+            offsets_data_size,
+            "record attribute value offsets",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute value offsets data", offsets_data)
@@ -633,7 +643,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         attribute_values_data_size = record_header.data_size - (
             file_offset - record_offset
         )
-        attribute_values_data = file_object.read(attribute_values_data_size)
+        attribute_values_data = self._ReadData(
+            file_object, file_offset, attribute_values_data_size, "attribute values"
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute values data", attribute_values_data)
-- 
2.43.0


From c2500b02f5bf0638aa852403906aa74f92c339bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 063/181] fix: do not print data outside of a keychain record
 or table as trailing data

---
 dtformats/keychain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index d018d6e..4634e26 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -813,7 +813,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -886,7 +886,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -950,7 +950,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = table_header.data_size - (file_offset - table_offset)
 
-            if trailing_data_size != 0:
+            if trailing_data_size > 0:
                 trailing_data = file_object.read(trailing_data_size)
                 self._DebugPrintData("Table trailing data", trailing_data)
 
-- 
2.43.0


From e39bfb36811a264154cb1228cfb5dbc6daee3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 064/181] fix: read a keychain record with an attribute without
 a name

---
 dtformats/keychain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4634e26..6b626a8 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -493,6 +493,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                 data_offsets.pop(0)
 
             for index, column in enumerate(table.columns):
+                attribute_name = column.attribute_name or "NULL"
+
                 if self._debug:
                     if attribute_value_offsets[index] == 0:
                         attribute_value_offset = 0
@@ -507,7 +509,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                             attribute_value_end_offset = data_offsets[0]
 
                     description = (
-                        f"Attribute value: {index:d} ({column.attribute_name:s}) data"
+                        f"Attribute value: {index:d} ({attribute_name:s}) data"
                     )
 
                     self._DebugPrintData(
@@ -531,7 +533,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                         record_offset,
                         record_data_offset,
                         attribute_value_offsets[index],
-                        column.attribute_name,
+                        attribute_name,
                     )
 
                 record[column.attribute_name] = attribute_value
-- 
2.43.0


From 1cf8ca6cb3ea88783150383f98fa0105c5538bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 065/181] fix: raise ParseError on a keychain relation or
 attribute name that is not ASCII

---
 dtformats/keychain.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 6b626a8..db0c7aa 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -752,7 +752,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_name = attribute_values_data[
                 attribute_value_offset : attribute_value_offset + 4
             ]
-            attribute_name = attribute_name.decode("ascii")
+            try:
+                attribute_name = attribute_name.decode("ascii")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode attribute name with error: {exception!s}"
+                )
 
         column = KeychainDatabaseColumn()
         column.attribute_data_type = attribute_data_type
@@ -871,7 +876,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "schema information record values"
         )
 
-        relation_name = record_values.relation_name.decode("ascii")
+        try:
+            relation_name = record_values.relation_name.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode relation name with error: {exception!s}"
+            )
 
         if self._debug:
             self._DebugPrintValue(
-- 
2.43.0


From 82f57385671fd0c3dc72ead090ef998b3c1d749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 066/181] fix: print the data of keychain attribute values that
 are not stored in order

---
 dtformats/keychain.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index db0c7aa..4734f5c 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -490,23 +490,26 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                     if offset > record_data_offset
                 ]
                 data_offsets.append(record_data_size - record_data_offset)
-                data_offsets.pop(0)
 
             for index, column in enumerate(table.columns):
                 attribute_name = column.attribute_name or "NULL"
 
                 if self._debug:
-                    if attribute_value_offsets[index] == 0:
+                    if attribute_value_offsets[index] <= record_data_offset:
                         attribute_value_offset = 0
                         attribute_value_end_offset = 0
                     else:
                         attribute_value_offset = (
                             attribute_value_offsets[index] - record_data_offset - 1
                         )
-                        attribute_value_end_offset = data_offsets[0]
-                        while attribute_value_end_offset <= attribute_value_offset:
-                            data_offsets.pop(0)
-                            attribute_value_end_offset = data_offsets[0]
+                        attribute_value_end_offset = min(
+                            (
+                                offset
+                                for offset in data_offsets
+                                if offset > attribute_value_offset
+                            ),
+                            default=attribute_value_offset,
+                        )
 
                     description = (
                         f"Attribute value: {index:d} ({attribute_name:s}) data"
-- 
2.43.0


From ab58f5c796999fd3e9a9f738d2e75f4239a0f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:53 +0000
Subject: [PATCH 067/181] fix: read a variable size structure near the end of a
 file

---
 dtformats/data_format.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index dacd0fe..9ea546d 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -719,6 +719,16 @@ class BinaryDataFormat:
         while data_size != last_data_size:
             read_offset = file_offset + last_data_size
             read_size = data_size - last_data_size
+
+            if last_data_size > 0:
+                # Note that the size hint can exceed the size of the structure and
+                # hence the end of the file.
+                file_object.seek(0, os.SEEK_END)
+                available_size = file_object.tell() - read_offset
+                if 0 < available_size < read_size:
+                    read_size = available_size
+                    data_size = last_data_size + available_size
+
             data_segment = self._ReadData(
                 file_object, read_offset, read_size, description
             )
-- 
2.43.0


From 3adb279bea2ec07683f75e8fbd11897ee8ec5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:07 +0000
Subject: [PATCH 068/181] fix: determine the size of the data of a WMF or EMF
 record

---
 dtformats/wemf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 726ff64..4fcfb06 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -151,14 +151,15 @@ class EMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("emf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, record_header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
-        data_size = record_header.record_size - (data_offset - file_offset)
+        data_offset = file_offset + record_header_size
+        data_size = record_header.record_size - record_header_size
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
@@ -704,7 +705,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("wmf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, record_header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
@@ -713,7 +714,8 @@ class WMFFile(data_format.BinaryDataFile):
 
         record_size = record_header.record_size * 2
 
-        data_size = record_size - (data_offset - file_offset)
+        data_offset = file_offset + record_header_size
+        data_size = record_size - record_header_size
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
-- 
2.43.0


From e5d466c0cc8a210b78928a214f139a676a825cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:07 +0000
Subject: [PATCH 069/181] fix: raise ParseError on a WMF or EMF record that is
 smaller than its header

---
 dtformats/wemf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 4fcfb06..0576c44 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -161,6 +161,11 @@ class EMFFile(data_format.BinaryDataFile):
         data_offset = file_offset + record_header_size
         data_size = record_header.record_size - record_header_size
 
+        if data_size < 0:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d}"
+            )
+
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
 
@@ -717,6 +722,11 @@ class WMFFile(data_format.BinaryDataFile):
         data_offset = file_offset + record_header_size
         data_size = record_size - record_header_size
 
+        if data_size < 0:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d}"
+            )
+
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
 
-- 
2.43.0


From 1d35dff24986eadd9d818d8bad4f97e03a50cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:07 +0000
Subject: [PATCH 070/181] fix: print the stretch mode of a WMF record

---
 dtformats/wemf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 0576c44..58c6e37 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -769,7 +769,7 @@ class WMFFile(data_format.BinaryDataFile):
 
             elif record_type == 0x0107:
                 stretch_mode_string = (
-                    self._MAP_MODE.GetName(record.stretch_mode) or "UNKNOWN"
+                    self._STRETCH_MODE.GetName(record.stretch_mode) or "UNKNOWN"
                 )
                 self._DebugPrintValue(
                     "Stretch mode",
-- 
2.43.0


From e0dd75e0071bbe8ecaf95b6c3b4513a0a173e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:27 +0000
Subject: [PATCH 071/181] fix: read WMF and EMF record data independent of
 debug output

---
 dtformats/wemf.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 58c6e37..8f15ca9 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -166,8 +166,7 @@ class EMFFile(data_format.BinaryDataFile):
                 f"Unsupported record size: {record_header.record_size:d}"
             )
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        self._ReadRecordData(file_object, record_header.record_type, data_size)
 
         return Record(
             record_header.record_type, record_header.record_size, data_offset, data_size
@@ -184,7 +183,9 @@ class EMFFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the record data cannot be read.
         """
-        record_data = file_object.read(data_size)
+        record_data = self._ReadData(
+            file_object, file_object.tell(), data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -727,8 +728,7 @@ class WMFFile(data_format.BinaryDataFile):
                 f"Unsupported record size: {record_header.record_size:d}"
             )
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        self._ReadRecordData(file_object, record_header.record_type, data_size)
 
         return Record(record_header.record_type, record_size, data_offset, data_size)
 
@@ -743,7 +743,9 @@ class WMFFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the record cannot be read.
         """
-        record_data = file_object.read(data_size)
+        record_data = self._ReadData(
+            file_object, file_object.tell(), data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
-- 
2.43.0


From 728293f9115024bdc928dcef453f9fdad3ce6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:27 +0000
Subject: [PATCH 072/181] fix: raise ParseError on WMF or EMF record data that
 is too small

---
 dtformats/wemf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 8f15ca9..b809bbf 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -197,7 +197,10 @@ class EMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
@@ -757,7 +760,10 @@ class WMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
-- 
2.43.0


From 27ba7aec71156efc28cbf4d6078db4cf3b22e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:49 +0000
Subject: [PATCH 073/181] fix: read the records that follow the EMF header
 record

---
 dtformats/wemf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index b809bbf..de628d3 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -132,9 +132,17 @@ class EMFFile(data_format.BinaryDataFile):
             self._DebugPrintFileHeader(file_header)
 
         # TODO: check record type
-        # TODO: check record size
         # TODO: check signature
 
+        # Note that the header record can be larger than the file header, for
+        # example when it contains a description string.
+        if file_header.record_size < 88:
+            raise errors.ParseError(
+                f"Unsupported record size: {file_header.record_size:d}"
+            )
+
+        file_object.seek(file_offset + file_header.record_size, os.SEEK_SET)
+
     def _ReadRecord(self, file_object, file_offset):
         """Reads a record.
 
-- 
2.43.0


From e1eee54f8ad5f7b864a92f477eb5f90bb5c050e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:06 +0000
Subject: [PATCH 074/181] fix: print the full names of WMF raster operations

---
 dtformats/wemf.py | 76 +++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index de628d3..5130434 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -345,44 +345,44 @@ class WMFFile(data_format.BinaryDataFile):
     # Reverse Polish wmf_raster_operation_code
     _WMF_RASTER_OPERATIONS = {
         0x00000042: "BLACKNESS",
-        0x00010289: "DPSOO",
-        0x00020C89: "DPSON",
-        0x000300AA: "PSO",
-        0x00040C88: "SDPON",
-        0x000500A9: "DPO",
-        0x00060865: "PDSXNO",
-        0x000702C5: "PDSAO",
-        0x00080F08: "SDPNA",
-        0x00090245: "PDSXO",
-        0x000A0329: "DPN",
-        0x000B0B2A: "PSDNAO",
-        0x000C0324: "SPN",
-        0x000D0B25: "PDSNAO",
-        0x000E08A5: "PDSONO",
-        0x000F0001: "P",
-        0x00100C85: "PDSON",
-        0x001100A6: "NOTSRCERAS",
-        0x00120868: "SDPXNO",
-        0x001302C8: "SDPAO",
-        0x00140869: "DPSXNO",
-        0x001502C9: "DPSAO",
-        0x00165CCA: "PSDPSANAX",
-        0x00171D54: "SSPXDSXAX",
-        0x00180D59: "SPXPDX",
-        0x00191CC8: "SDPSANAX",
-        0x001A06C5: "PDSPAO",
-        0x001B0768: "SDPSXAX",
-        0x001C06CA: "PSDPAO",
-        0x001D0766: "DSPDXAX",
-        0x001E01A5: "PDSO",
-        0x001F0385: "PDSOA",
-        0x00200F09: "DPSNA",
-        0x00210248: "SDPXO",
-        0x00220326: "DSN",
-        0x00230B24: "SPDNAO",
-        0x00240D55: "SPXDSX",
-        0x00251CC5: "PDSPANAX",
-        0x002606C8: "SDPSAO",
+        0x00010289: "DPSOON",
+        0x00020C89: "DPSONA",
+        0x000300AA: "PSON",
+        0x00040C88: "SDPONA",
+        0x000500A9: "DPON",
+        0x00060865: "PDSXNON",
+        0x000702C5: "PDSAON",
+        0x00080F08: "SDPNAA",
+        0x00090245: "PDSXON",
+        0x000A0329: "DPNA",
+        0x000B0B2A: "PSDNAON",
+        0x000C0324: "SPNA",
+        0x000D0B25: "PDSNAON",
+        0x000E08A5: "PDSONON",
+        0x000F0001: "PN",
+        0x00100C85: "PDSONA",
+        0x001100A6: "NOTSRCERASE",
+        0x00120868: "SDPXNON",
+        0x001302C8: "SDPAON",
+        0x00140869: "DPSXNON",
+        0x001502C9: "DPSAON",
+        0x00165CCA: "PSDPSANAXX",
+        0x00171D54: "SSPXDSXAXN",
+        0x00180D59: "SPXPDXA",
+        0x00191CC8: "SDPSANAXN",
+        0x001A06C5: "PDSPAOX",
+        0x001B0768: "SDPSXAXN",
+        0x001C06CA: "PSDPAOX",
+        0x001D0766: "DSPDXAXN",
+        0x001E01A5: "PDSOX",
+        0x001F0385: "PDSOAN",
+        0x00200F09: "DPSNAA",
+        0x00210248: "SDPXON",
+        0x00220326: "DSNA",
+        0x00230B24: "SPDNAON",
+        0x00240D55: "SPXDSXA",
+        0x00251CC5: "PDSPANAXN",
+        0x002606C8: "SDPSAOX",
         0x00271868: "SDPSXNOX",
         0x00280369: "DPSXA",
         0x002916CA: "PSDPSAOXXN",
-- 
2.43.0


From 852760240903f8b3e2ede176bf0d94a7c0398e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:49 +0000
Subject: [PATCH 075/181] fix: print the parts of a Firefox cache version 1
 location

---
 dtformats/firefox_cache1.debug.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index f87a8d1..d6d8a1e 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -10,7 +10,7 @@ attributes:
   format: decimal
 - name: location
   description: "Location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: fetch_count
   description: "Fetch count"
   format: decimal
@@ -73,7 +73,7 @@ attributes:
   format: decimal
 - name: data_location
   description: "Data location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: metadata_location
   description: "Metadata location"
-  format: custom:cache_lcation
+  format: custom:cache_location
-- 
2.43.0


From 30643dbcad6fbd46ce56b0c4f92a44a028c9d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:49 +0000
Subject: [PATCH 076/181] fix: print the expiration time of a Firefox cache
 version 1 entry

---
 dtformats/firefox_cache1.debug.yaml | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index d6d8a1e..e824016 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -20,6 +20,9 @@ attributes:
 - name: last_modified_time
   description: "Last modified time"
   format: custom:posix_time
+- name: expiration_time
+  description: "Expiration time"
+  format: custom:posix_time
 - name: cached_data_size
   description: "Cached data size"
   format: decimal
-- 
2.43.0


From cb1b5bacd6573c69468010f012dd092c28f50eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:49 +0000
Subject: [PATCH 077/181] fix: read the block that follows a Firefox cache
 version 1 block without entry

---
 dtformats/firefox_cache1.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtformats/firefox_cache1.py b/dtformats/firefox_cache1.py
index 896ee05..578a43f 100644
--- a/dtformats/firefox_cache1.py
+++ b/dtformats/firefox_cache1.py
@@ -184,7 +184,11 @@ class CacheBlockFile(data_format.BinaryDataFile):
             file_object.seek(file_offset + self._block_size, os.SEEK_SET)
             return
 
-        if self._debug and cache_entry.major_format_version == 1:
+        if cache_entry.major_format_version != 1:
+            file_object.seek(file_offset + self._block_size, os.SEEK_SET)
+            return
+
+        if self._debug:
             debug_info = self._DEBUG_INFORMATION.get("firefox_cache1_entry")
             self._DebugPrintStructureObject(cache_entry, debug_info)
 
-- 
2.43.0


From d40603360babc2bf62c6c93984efb2256814f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:31 +0000
Subject: [PATCH 078/181] fix: raise ParseError on unsupported threat tracking
 data

---
 dtformats/detection_history.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dtformats/detection_history.py b/dtformats/detection_history.py
index 6c0026e..4b6354d 100644
--- a/dtformats/detection_history.py
+++ b/dtformats/detection_history.py
@@ -3,6 +3,7 @@
 from dtfabric.runtime import data_maps as dtfabric_data_maps
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
@@ -97,8 +98,14 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
               the start of the file.
 
         Raises:
-          OSError: if the threat tracking data cannot be read.
+          ParseError: if the threat tracking data cannot be read.
         """
+        if not isinstance(threat_tracking_data, bytes) or not threat_tracking_data:
+            raise errors.ParseError(
+                f"Unsupported threat tracking data at offset: {file_offset:d} "
+                f"(0x{file_offset:08x})"
+            )
+
         if self._debug:
             self._DebugPrintText(
                 (
@@ -123,6 +130,9 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
             values_data_end_offset = header.total_data_size
 
         while values_data_offset < values_data_end_offset:
+            if values_data_offset >= len(threat_tracking_data):
+                raise errors.ParseError("Threat tracking data too small")
+
             _, data_size = self._ReadThreatTrackingValue(
                 threat_tracking_data[values_data_offset:],
                 file_offset + values_data_offset,
-- 
2.43.0


From 50e2fa0d36d4c0ccda897758cc769994d89f56c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:31 +0000
Subject: [PATCH 079/181] fix: read threat tracking data independent of debug
 output

---
 dtformats/detection_history.py | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/dtformats/detection_history.py b/dtformats/detection_history.py
index 4b6354d..d2946f3 100644
--- a/dtformats/detection_history.py
+++ b/dtformats/detection_history.py
@@ -254,30 +254,29 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
 
             file_offset = file_object.tell()
 
-        if self._debug:
-            value_index_set = 0
-            value_index = 0
-            for file_offset, value_object in value_tuples:
-                if value_object == "Magic.Version:1.2":
-                    if value_index_set < 2:
-                        value_index_set += 1
-                    value_index = 0
+        value_index_set = 0
+        value_index = 0
+        for file_offset, value_object in value_tuples:
+            if value_object == "Magic.Version:1.2":
+                if value_index_set < 2:
+                    value_index_set += 1
+                value_index = 0
+
+            if (value_index_set, value_index) == (2, 5):
+                self._ReadThreatTrackingData(value_object, file_offset + 8)
+
+            elif self._debug:
+                description = self._VALUE_DESCRIPTIONS[value_index_set].get(
+                    value_index, f"UNKNOWN_{value_index_set:d}_{value_index:d}"
+                )
 
-                if (value_index_set, value_index) == (2, 5):
-                    self._ReadThreatTrackingData(value_object, file_offset + 8)
+                if (value_index_set, value_index) == (1, 4):
+                    category_name = self._CATEGORY_NAME.get(value_object, "UNKNOWN")
+                    value_string = f"{value_object!s} ({category_name:s})"
 
                 else:
-                    description = self._VALUE_DESCRIPTIONS[value_index_set].get(
-                        value_index, f"UNKNOWN_{value_index_set:d}_{value_index:d}"
-                    )
-
-                    if (value_index_set, value_index) == (1, 4):
-                        category_name = self._CATEGORY_NAME.get(value_object, "UNKNOWN")
-                        value_string = f"{value_object!s} ({category_name:s})"
-
-                    else:
-                        value_string = f"{value_object!s}"
+                    value_string = f"{value_object!s}"
 
-                    self._DebugPrintValue(description, value_string)
+                self._DebugPrintValue(description, value_string)
 
-                value_index += 1
+            value_index += 1
-- 
2.43.0


From b90c75ba60deec89fb1cc997e2dfd16731ac8814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:31 +0000
Subject: [PATCH 080/181] fix: print the fraction of second of an alias data
 date and time value

---
 dtformats/alias_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/alias_data.py b/dtformats/alias_data.py
index 9393f62..00cc34a 100644
--- a/dtformats/alias_data.py
+++ b/dtformats/alias_data.py
@@ -50,7 +50,8 @@ class MacOSLoginItemAliasData(data_format.BinaryDataFile):
         if not date_time_string:
             return f"0x{integer:08x}"
 
-        return f"{date_time_string:s}.{fraction_of_second:03d} UTC"
+        milliseconds = (fraction_of_second * 1000) // 65536
+        return f"{date_time_string:s}.{milliseconds:03d} UTC"
 
     def _ReadRecordHeader(self, file_object, file_offset):
         """Reads a record header.
-- 
2.43.0


From cae00f4ff2569ff9f93fa3169e12216643838418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:31 +0000
Subject: [PATCH 081/181] fix: raise ParseError on an alias data tagged value
 with an unsupported size

---
 dtformats/alias_data.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dtformats/alias_data.py b/dtformats/alias_data.py
index 00cc34a..1cf32e2 100644
--- a/dtformats/alias_data.py
+++ b/dtformats/alias_data.py
@@ -159,6 +159,17 @@ class MacOSLoginItemAliasData(data_format.BinaryDataFile):
             debug_info = self._DEBUG_INFORMATION.get("alias_data_tagged_value")
             self._DebugPrintStructureObject(tagged_value, debug_info)
 
+        number_of_characters = getattr(tagged_value, "number_of_characters", None)
+        if (
+            number_of_characters is not None
+            and tagged_value.value_data_size != 2 + (number_of_characters * 2)
+        ):
+            raise errors.ParseError("Unsupported tagged value data size")
+
+        integers = getattr(tagged_value, "integers", None)
+        if integers is not None and tagged_value.value_data_size != len(integers) * 4:
+            raise errors.ParseError("Unsupported tagged value data size")
+
         return tagged_value, bytes_read
 
     def ReadFileObject(self, file_object):
-- 
2.43.0


From 7d33116de015107e91a81aaa52fe7a9fc55623a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:57 +0000
Subject: [PATCH 082/181] fix: raise ParseError on an unsupported bookmark data
 record

---
 dtformats/bookmark_data.py | 44 ++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/dtformats/bookmark_data.py b/dtformats/bookmark_data.py
index 464db90..35ef338 100644
--- a/dtformats/bookmark_data.py
+++ b/dtformats/bookmark_data.py
@@ -50,6 +50,28 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
         )
         return f"{value:s}\n"
 
+    def _GetDataRecordValue(self, data_record, attribute_name):
+        """Retrieves a value of a data record.
+
+        Args:
+          data_record (bookmark_data_record): data record.
+          attribute_name (str): name of the attribute that contains the value.
+
+        Returns:
+          object: value.
+
+        Raises:
+          ParseError: if the data record does not contain the value.
+        """
+        value = getattr(data_record, attribute_name, None)
+        if value is None or value == b"":
+            raise errors.ParseError(
+                f"Unsupported data record of type: 0x{data_record.data_type:08x} and "
+                f"size: {data_record.data_size:d}"
+            )
+
+        return value
+
     def _ReadDataRecord(self, file_object, file_offset):
         """Reads a data record.
 
@@ -120,7 +142,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            integers_array.append(data_record.integer)
+            integers_array.append(self._GetDataRecordValue(data_record, "integer"))
 
         return integers_array
 
@@ -143,7 +165,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            strings_array.append(data_record.string)
+            strings_array.append(self._GetDataRecordValue(data_record, "string"))
 
         return strings_array
 
@@ -225,7 +247,10 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 # TODO: change dtFabric to support setting float64be directly in struct
                 data_type_map = self._GetDataTypeMap("float64be")
                 cocoa_timestamp = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Floating-point 64-bit"
+                    self._GetDataRecordValue(data_record, "data"),
+                    0,
+                    data_type_map,
+                    "Floating-point 64-bit",
                 )
 
                 if self._debug:
@@ -236,7 +261,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1004:
                 strings_array = self._ReadStringsArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -247,7 +274,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1005:
                 integers_array = self._ReadIntegersArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -261,7 +290,10 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
             elif tagged_value.value_tag in (0x1010, 0x2020):
                 data_type_map = self._GetDataTypeMap("bookmark_data_property_flags")
                 property_flags = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Property flags"
+                    self._GetDataRecordValue(data_record, "data"),
+                    0,
+                    data_type_map,
+                    "Property flags",
                 )
 
                 if self._debug:
-- 
2.43.0


From f2cc4e3d15d70a8c9cfec77607233f4ca642406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:28 +0000
Subject: [PATCH 083/181] fix: escape byte value 0xff in a stream formatted as
 a string

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 9ea546d..7fa4dec 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -49,7 +49,7 @@ class BinaryDataFormat:
     # Byte values that are considered non-printable characters.
     _NON_PRINTABLE_BYTE_VALUES = {value: f"\\x{value:02x}" for value in range(0, 0x20)}
     _NON_PRINTABLE_BYTE_VALUES.update(
-        {value: f"\\x{value:02x}" for value in range(0x7F, 0xFF)}
+        {value: f"\\x{value:02x}" for value in range(0x7F, 0x100)}
     )
     _NON_PRINTABLE_BYTE_VALUES_TRANSLATION_TABLE = str.maketrans(
         _NON_PRINTABLE_BYTE_VALUES
-- 
2.43.0


From feeaf2b3bad2a7ca3ed88422ddeab338736eff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:28 +0000
Subject: [PATCH 084/181] fix: print a POSIX time value that is out of bounds

---
 dtformats/data_format.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 7fa4dec..204b86e 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -125,15 +125,7 @@ class BinaryDataFormat:
           description (str): description.
           value (object): value.
         """
-        if value == 0:
-            date_time_string = "Not set (0)"
-        else:
-            date_time = dfdatetime_posix_time.PosixTime(timestamp=value)
-            date_time_string = date_time.CopyToDateTimeString()
-            if date_time_string:
-                date_time_string = f"{date_time_string:s} UTC"
-            else:
-                date_time_string = f"0x{value:08x}"
+        date_time_string = self._FormatIntegerAsPosixTime(value)
 
         self._DebugPrintValue(description, date_time_string)
 
-- 
2.43.0


From 6cfd940bd6c4dcacef7c894628b690efc4865bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:28 +0000
Subject: [PATCH 085/181] fix: close a file that cannot be read

---
 dtformats/data_format.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 204b86e..2089b77 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -905,17 +905,26 @@ class BinaryDataFile(BinaryDataFormat):
           path (str): path to the file.
 
         Raises:
-          OSError: if the file is already opened.
+          OSError: if the file is already opened or cannot be opened.
         """
         if self._file_object:
             raise OSError("File already opened")
 
-        self._file_size = self._file_system_helper.GetFileSizeByPath(path)
-        self._path = path
+        file_size = self._file_system_helper.GetFileSizeByPath(path)
 
         file_object = self._file_system_helper.OpenFileByPath(path)
+        if not file_object:
+            raise OSError(f"Unable to open file: {path:s}")
 
-        self.ReadFileObject(file_object)
+        self._file_size = file_size
+        self._path = path
+
+        try:
+            self.ReadFileObject(file_object)
+        except Exception:
+            file_object.close()
+            self._path = None
+            raise
 
         self._file_object = file_object
         self._file_object_opened_in_object = True
-- 
2.43.0


From fe7ab04b0dbf0d846a428b07ef435897c126fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:28 +0000
Subject: [PATCH 086/181] fix: split a relative path into the path segments of
 its absolute path

---
 dtformats/file_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/file_system.py b/dtformats/file_system.py
index e48b0ed..b8b707c 100644
--- a/dtformats/file_system.py
+++ b/dtformats/file_system.py
@@ -190,4 +190,4 @@ class NativeFileSystemHelper:
               an empty string.
         """
         # Split the path with the path separator and remove empty path segments.
-        return list(filter(None, path.split(os.path.sep)))
+        return list(filter(None, os.path.abspath(path).split(os.path.sep)))
-- 
2.43.0


From 8a9518e98e3d274cd8d29c6dbdbab1b40256c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 087/181] fix: print a structure without an output writer

---
 dtformats/data_format.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 2089b77..37730c3 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -115,8 +115,9 @@ class BinaryDataFormat:
           structure_object (object): structure object.
           debug_info (list[tuple[str, str, int]]): debug information.
         """
-        text = self._FormatStructureObject(structure_object, debug_info)
-        self._output_writer.WriteText(text)
+        if self._output_writer:
+            text = self._FormatStructureObject(structure_object, debug_info)
+            self._output_writer.WriteText(text)
 
     def _DebugPrintPosixTimeValue(self, description, value):
         """Prints a POSIX timestamp value for debugging.
-- 
2.43.0


From c65572796b52989fb7e62d2a2cb6113cb7682fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:58 +0000
Subject: [PATCH 088/181] fix: raise ParseError on a Spotlight variable size
 integer without its data

---
 dtformats/spotlight_storedb.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 657103e..284fefc 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -174,7 +174,13 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -189,6 +195,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         elif number_of_additional_bytes > 0:
             byte_value &= bitmask ^ 0xFF
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Variable size integer data too small")
+
         integer_value = int(byte_value)
         while number_of_additional_bytes > 0:
             integer_value <<= 8
@@ -1899,7 +1908,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -1914,6 +1929,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         elif number_of_additional_bytes > 0:
             byte_value &= bitmask ^ 0xFF
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Variable size integer data too small")
+
         integer_value = int(byte_value)
         while number_of_additional_bytes > 0:
             integer_value <<= 8
-- 
2.43.0


From 3e19391efd06b0a5aec2ecee9072ac62703966ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:58 +0000
Subject: [PATCH 089/181] fix: raise ParseError on Spotlight store database
 data that is too small

---
 dtformats/spotlight_storedb.py | 60 +++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 284fefc..c7d8f8c 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -370,7 +370,10 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         try:
             offsets_array = data_type_map.MapByteStream(data, context=context)
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit offsets with error: {exception!s}"
             )
@@ -604,7 +607,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             lz4_block_header = data_type_map.MapByteStream(compressed_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map LZ4 block header at offset: 0x{file_offset:08x} "
                 f"with error: {exception!s}"
@@ -773,7 +779,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -796,7 +805,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     page_data[page_data_offset + page_value_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 page_data_offset += page_value_size
                 raise errors.ParseError(
                     f"Unable to parse index data at offset: 0x{page_data_offset:08x} "
@@ -889,7 +901,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     stream_value[data_offset + padding_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1120,7 +1135,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of byte values with error: {exception!s}"
             )
@@ -1165,7 +1183,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1211,7 +1232,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 64-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1268,7 +1292,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -1385,7 +1412,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             try:
                 property_value = data_type_map.MapByteStream(stream_value[data_offset:])
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1426,7 +1456,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of string values with error: {exception!s}"
             )
@@ -1685,7 +1718,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(data, context=context)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map record at offset: 0x{page_data_offset:08x} with "
                 f"error: {exception!s}"
-- 
2.43.0


From 229d57917d987e635881e96204a73acce641c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:18 +0000
Subject: [PATCH 090/181] fix: read the values of a Spotlight multi-value
 integer after its size

---
 dtformats/spotlight_storedb.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index c7d8f8c..52d2c1a 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1496,17 +1496,19 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         array_of_values = []
 
-        data_offset = 0
-        while data_offset < data_size:
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError("Unable to parse array of integer values")
+
+        data_offset = bytes_read
+        bytes_read += data_size
+        while data_offset < bytes_read:
             integer_value, integer_value_size = self._ReadVariableSizeInteger(
-                data[data_offset:data_size]
+                data[data_offset:bytes_read]
             )
             data_offset += integer_value_size
 
             array_of_values.append(integer_value)
 
-        bytes_read += data_size
-
         return array_of_values, bytes_read
 
     def _ReadPropertyPage(self, file_object, file_offset, property_table):
-- 
2.43.0


From 11fe65ae1c1246e8ad2f1bbf374d23ffd6e2852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 091/181] fix: read all of the attributes of a Spotlight record

---
 dtformats/spotlight_storedb.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 52d2c1a..a261392 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1645,8 +1645,8 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         record_header, bytes_read = self._ReadRecordHeader(
             page_data[page_data_offset:], page_data_offset
         )
+        record_data_end_offset = page_data_offset + 4 + record_header.data_size
         page_data_offset += bytes_read
-        record_data_offset = bytes_read
 
         metadata_item = SpotlightStoreMetadataItem()
         metadata_item.identifier = record_header.identifier
@@ -1657,9 +1657,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         metadata_attribute_index = 0
         metadata_type_index = 0
 
-        record_data_end_offset = page_data_offset + record_header.data_size
-
-        while record_data_offset < record_header.data_size:
+        while page_data_offset < record_data_end_offset:
             relative_metadata_type_index, bytes_read = self._ReadVariableSizeInteger(
                 page_data[page_data_offset:record_data_end_offset]
             )
@@ -1670,7 +1668,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_type_index += relative_metadata_type_index
 
@@ -1692,7 +1689,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_item.attributes[metadata_attribute.key] = metadata_attribute
             metadata_attribute_index += 1
@@ -1731,10 +1727,23 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         data_offset = context.byte_size
 
+        if record.data_size > len(data) - data_offset:
+            raise errors.ParseError(
+                f"Record data size value out of bounds at offset: "
+                f"0x{page_data_offset:08x}"
+            )
+
+        data = data[: data_offset + record.data_size]
+
         identifier, bytes_read = self._ReadVariableSizeInteger(data[data_offset:])
 
         data_offset += bytes_read
 
+        if data_offset >= len(data):
+            raise errors.ParseError(
+                f"Missing record flags at offset: 0x{page_data_offset:08x}"
+            )
+
         flags = data[data_offset]
 
         data_offset += 1
@@ -1836,8 +1845,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             if self._debug:
+                record_data_offset = page_data_offset + 4
                 record_data = page_data[
-                    page_data_offset + 4 : page_data_offset + record_header.data_size
+                    record_data_offset : record_data_offset + record_header.data_size
                 ]
                 self._DebugPrintData("Record data", record_data)
 
-- 
2.43.0


From c29d65e765b0d8577c6ac6d159d9dd4412adf3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 092/181] fix: raise ParseError on a Spotlight attribute of an
 unknown type

---
 dtformats/spotlight_storedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index a261392..9c695e2 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1034,7 +1034,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         """
         value_type = getattr(metadata_type, "value_type", None)
         if value_type is None:
-            return None, 0
+            raise errors.ParseError("Missing metadata attribute type")
 
         key_name = getattr(metadata_type, "key_name", None)
         property_type = getattr(metadata_type, "property_type", None)
-- 
2.43.0


From 1fc4d527a2e0aabafe86f785aac5b11162f7d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 093/181] fix: raise ParseError on a Spotlight attribute with
 an unsupported value type

---
 dtformats/spotlight_storedb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 9c695e2..72f9045 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1092,7 +1092,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
         else:
             # TODO: value type 0x01, 0x03, 0x04, 0x05, 0x0d
-            value, bytes_read = None, 0
+            raise errors.ParseError(
+                f"Unsupported metadata attribute value type: 0x{value_type:02x}"
+            )
 
         metadata_attribute = SpotlightStoreMetadataAttribute()
         metadata_attribute.key = getattr(metadata_type, "key_name", None)
-- 
2.43.0


From a5cade3f7d88ed70d5926023c993f2c476ccf159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 094/181] fix: print a Spotlight store database without records

---
 dtformats/spotlight_storedb.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 72f9045..8457915 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -2096,8 +2096,5 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for record_identifier in sorted(self._record_descriptors.keys()):
-                metadata_item = self._GetMetadataItemByIdentifier(
-                    file_object, record_identifier
-                )
-            # TODO: do something with metadata_item or remove.
-            _ = metadata_item
+                # TODO: do something with metadata item.
+                self._GetMetadataItemByIdentifier(file_object, record_identifier)
-- 
2.43.0


From fe8584cf16f7205920b5392ae5aff00c915ae47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 095/181] fix: raise ParseError on a Spotlight map page that is
 too small for its values

---
 dtformats/spotlight_storedb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 8457915..12129c5 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -965,12 +965,20 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(page_header, debug_info)
 
+        remaining_size = page_header.page_size - (
+            page_header_size + (page_header.number_of_map_values * 16)
+        )
+        if remaining_size < 0:
+            raise errors.ParseError(
+                f"Map page size value out of bounds at offset: 0x{file_offset:08x}"
+            )
+
         file_offset += page_header_size
 
         self._ReadMapPageValues(page_header, file_object, file_offset)
 
         if self._debug:
-            page_data = file_object.read(page_header.page_size - page_header_size)
+            page_data = file_object.read(remaining_size)
             self._DebugPrintData("Page data", page_data)
 
         return page_header
-- 
2.43.0


From a04191a6e545360904568705efa3b99592fdca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 096/181] fix: print no trailing data of a Spotlight header
 that is followed by the map

---
 dtformats/spotlight_storedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 12129c5..729f82d 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -747,7 +747,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(file_header, debug_info)
 
-        if self._debug:
+        if self._debug and file_header.map_offset > file_header_size:
             trailing_data = file_object.read(file_header.map_offset - file_header_size)
             self._DebugPrintData("Trailing data", trailing_data)
 
-- 
2.43.0


From 1e990d712fa2c9143abd944c48c6493477175195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 097/181] fix: raise ParseError on a loop of Spotlight property
 pages

---
 dtformats/spotlight_storedb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 729f82d..a4953c5 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1627,7 +1627,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
           ParseError: if the property pages cannot be read.
         """
         file_offset = block_number * 0x1000
+        file_offsets = set()
         while file_offset != 0:
+            if file_offset in file_offsets:
+                raise errors.ParseError(
+                    f"Property page at offset: 0x{file_offset:08x} already read"
+                )
+
+            file_offsets.add(file_offset)
+
             _, next_block_number = self._ReadPropertyPage(
                 file_object, file_offset, property_table
             )
-- 
2.43.0


From ab0ce1cddf3ef7d123b56e6ae87bcd6cc2329302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:06 +0000
Subject: [PATCH 098/181] fix: raise ParseError on a Spotlight page without its
 data

---
 dtformats/spotlight_storedb.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index a4953c5..d5efad3 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1551,6 +1551,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
         page_data = file_object.read(page_header.page_size - bytes_read)
+        if len(page_data) != page_header.page_size - bytes_read:
+            raise errors.ParseError(
+                f"Unable to read page data at offset: 0x{file_offset:08x}"
+            )
 
         data_type_map = self._GetDataTypeMap(
             "spotlight_store_db_property_values_header"
@@ -1598,6 +1602,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         page_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "property page header"
         )
+        if page_header.page_size < bytes_read:
+            raise errors.ParseError(
+                f"Unsupported property page size: {page_header.page_size:d}"
+            )
+
         if self._debug:
             block_number = file_offset // 0x1000
             self._DebugPrintDecimalValue("Block number", block_number)
@@ -1813,6 +1822,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
         page_data = file_object.read(page_header.page_size - bytes_read)
+        if len(page_data) != page_header.page_size - bytes_read:
+            raise errors.ParseError(
+                f"Unable to read page data at offset: 0x{file_offset:08x}"
+            )
 
         file_offset += bytes_read
 
-- 
2.43.0


From fabc68844c159e57545700d876173acf1ff3d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:06 +0000
Subject: [PATCH 099/181] fix: raise ParseError on Spotlight page data that
 cannot be decompressed

---
 dtformats/spotlight_storedb.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index d5efad3..a8ebf61 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -625,11 +625,22 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
 
-            uncompressed_data = lz4.block.decompress(
-                compressed_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-                dict=previous_uncompressed_data,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    compressed_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                    dict=previous_uncompressed_data,
+                )
+            except (
+                MemoryError,
+                OverflowError,
+                ValueError,
+                lz4.block.LZ4BlockError,
+            ) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block at offset: "
+                    f"0x{file_offset:08x} with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -1839,8 +1850,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                     compressed_page_data, file_offset
                 )
 
-            elif compressed_page_data[0] == 0x78:
-                page_data = zlib.decompress(compressed_page_data)
+            elif compressed_page_data[0:1] == b"\x78":
+                try:
+                    page_data = zlib.decompress(compressed_page_data)
+                except zlib.error as exception:
+                    raise errors.ParseError(
+                        f"Unable to decompress page data at offset: "
+                        f"0x{file_offset:08x} with error: {exception!s}"
+                    )
 
             # TODO: add support for other compression types.
             else:
-- 
2.43.0


From 00b74e5d7f09ef4093340ab74e66ffc4424a35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:06 +0000
Subject: [PATCH 100/181] fix: ignore the unused data of a Spotlight record
 page

---
 dtformats/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index a8ebf61..07108a2 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1866,6 +1866,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
                 raise errors.ParseError("Unsupported compression type")
 
+        else:
+            page_data = page_data[: max(0, page_header.used_page_size - bytes_read)]
+
         return page_header, page_data
 
     def _ReadRecordPageValues(self, page_data, page_offset):
-- 
2.43.0


From 49ef4c37acbcec958258627510dedf772d469ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:06 +0000
Subject: [PATCH 101/181] fix: read a Spotlight string attribute without a
 string

---
 dtformats/spotlight_storedb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 07108a2..8ff9ff3 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1486,13 +1486,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
         if property_type & 0x03 == 0x03:
-            value = array_of_values[0]
+            value = array_of_values[0] if array_of_values else ""
             if "\x16\x02" in value:
                 value = value.split("\x16\x02")[0]
         elif property_type & 0x03 == 0x02:
             value = array_of_values
         else:
-            value = array_of_values[0]
+            value = array_of_values[0] if array_of_values else ""
 
         bytes_read += data_size
 
-- 
2.43.0


From dd36075684d3cab16075c706ba7cf0b417bd9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:06 +0000
Subject: [PATCH 102/181] fix: raise ParseError on a Spotlight binary data
 attribute without its data

---
 dtformats/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 8ff9ff3..a1c2bb1 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1100,6 +1100,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             if self._debug:
                 self._DebugPrintDecimalValue("Data size", data_size)
 
+            if data_size > len(data) - bytes_read:
+                raise errors.ParseError("Unable to read binary data value")
+
             value = data[bytes_read : bytes_read + data_size]
             bytes_read += data_size
 
-- 
2.43.0


From ce33457a8cef89b7cc562843bda2cc93a4fe2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:06 +0000
Subject: [PATCH 103/181] fix: print a Spotlight Cocoa timestamp that is out of
 bounds

---
 dtformats/spotlight_storedb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index a1c2bb1..92cc600 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -466,11 +466,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             date_time_string = "Not set (0)"
         else:
             date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
-            date_time_string = date_time.CopyToDateTimeString()
-            if date_time_string:
+            try:
+                date_time_string = date_time.CopyToDateTimeString()
                 date_time_string = f"{date_time_string:s} UTC"
-            else:
-                date_time_string = f"0x{value:08x}"
+            except (OverflowError, ValueError):
+                date_time_string, _ = self._FormatFloatingPoint(value)
 
         self._DebugPrintValue(description, date_time_string)
 
-- 
2.43.0


From f7e25f0a84d8e2518009f1b3e18a82469b3f7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:06 +0000
Subject: [PATCH 104/181] fix: raise ParseError on Spotlight stream ranges that
 are out of bounds

---
 dtformats/spotlight_storedb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 92cc600..f4c9292 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -219,6 +219,8 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         data = file_object.read(self._data_size)
+        if len(data) != self._data_size:
+            raise errors.ParseError("Unable to read streams map data")
 
         for index, value_range in enumerate(self._ranges):
             value_offset, value_size = value_range
@@ -386,6 +388,9 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
                 last_offset = offsets_array[0]
                 continue
 
+            if offset < last_offset:
+                raise errors.ParseError(f"Range: {index:d} offset out of bounds")
+
             range_size = offset - last_offset
 
             if self._debug:
@@ -398,7 +403,10 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
 
             last_offset = offset
 
-        if last_offset:
+        if offsets_array:
+            if last_offset > self._data_size:
+                raise errors.ParseError(f"Range: {index:d} offset out of bounds")
+
             range_size = self._data_size - last_offset
 
             if self._debug:
-- 
2.43.0


From a719e6cd5675d6ff2fbdc2b86bf5f56806f07197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:06 +0000
Subject: [PATCH 105/181] fix: forget what a Spotlight file reader read from a
 previous file

---
 dtformats/spotlight_storedb.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index f4c9292..c183a90 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -218,6 +218,8 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self.stream_values = []
+
         data = file_object.read(self._data_size)
         if len(data) != self._data_size:
             raise errors.ParseError("Unable to read streams map data")
@@ -361,6 +363,8 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self.ranges = []
+
         data_size = self._number_of_entries * 4
         data = file_object.read(data_size)
 
@@ -2098,6 +2102,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._map_values = []
+        self._metadata_lists = {}
+        self._metadata_localized_strings = {}
+        self._metadata_types = {}
+        self._metadata_values = {}
+        self._record_descriptors = {}
+        self._record_pages_cache = {}
+
         file_header = self._ReadFileHeader(file_object)
 
         self._ReadMapPages(file_object, file_header.map_offset, file_header.map_size)
-- 
2.43.0


From 42583c11ac192ade773c9571ec483f275717a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:35 +0000
Subject: [PATCH 106/181] fix: combine the flags, width and precision of a
 unified logging format operator

---
 dtformats/unified_logging.py | 49 +++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 48165ca..fc7fcaf 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -239,6 +239,8 @@ class FormatStringOperator:
         "U": "d",
     }
 
+    _SIGNED_SPECIFIERS = frozenset("aAdDeEfFgGim")
+
     def __init__(self, flags=None, precision=None, specifier=None, width=None):
         """Initializes a format string operator.
 
@@ -264,7 +266,8 @@ class FormatStringOperator:
         if self._format_string is None:
             flags = self.flags or ""
             precision = self.precision or ""
-            width = self.width or ""
+            # A width that is supplied by an additional argument is not supported.
+            width = "" if self.width == "*" else self.width or ""
 
             python_specifier = self._PYTHON_SPECIFIERS.get(
                 self.specifier, self.specifier
@@ -285,31 +288,43 @@ class FormatStringOperator:
             elif precision == ".*":
                 precision = ""
 
-            if python_specifier in ("d", "o", "x", "X"):
-                flags = flags.replace("-", "<")
-
+            if python_specifier in ("c", "d", "o", "x", "X"):
                 # Prevent: "ValueError: Precision not allowed in integer format
                 # specifier"
                 precision = ""
 
             elif python_specifier == "s":
-                if width and not flags:
-                    flags = ">"
-                else:
-                    flags = flags.replace("-", "<")
-
                 # Prevent: "%.0s" formatting as an empty string.
                 if precision == ".0":
                     precision = ""
 
-            if self.specifier == "p":
-                self._format_string = (
-                    f"0x{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
-                )
-            else:
-                self._format_string = (
-                    f"{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
-                )
+            # Note that Python requires a specific order, namely: alignment, sign,
+            # alternate form, zero padding, width and precision.
+            python_flags = ""
+            if "-" in flags:
+                python_flags = "<"
+            elif python_specifier == "s" and width:
+                python_flags = ">"
+
+            if self.specifier in self._SIGNED_SPECIFIERS:
+                if "+" in flags:
+                    python_flags = f"{python_flags:s}+"
+                elif " " in flags:
+                    python_flags = f"{python_flags:s} "
+
+            if python_specifier not in ("c", "d", "s"):
+                if "#" in flags or (self.specifier == "p" and (flags or width)):
+                    python_flags = f"{python_flags:s}#"
+
+            if python_specifier not in ("c", "s"):
+                if "0" in flags and "-" not in flags:
+                    python_flags = f"{python_flags:s}0"
+
+            self._format_string = (
+                f"{{0:{python_flags:s}{width:s}{precision:s}{python_specifier:s}}}"
+            )
+            if self.specifier == "p" and "#" not in python_flags:
+                self._format_string = f"0x{self._format_string:s}"
 
         return self._format_string
 
-- 
2.43.0


From 694758356c5b2c04ea192a5e0af46eb64529e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 107/181] fix: bound the unified logging time_t values that are
 formatted

---
 dtformats/unified_logging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index fc7fcaf..430c15d 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -576,7 +576,11 @@ class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted date and time value in seconds.
         """
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
+
+        # Only support dates with a year between 1 and 9999.
+        if integer_value < -62135596800 or integer_value > 253402300799:
+            return "<decode: unsupported value>"
 
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer_value)
         return date_time.CopyToDateTimeString()
-- 
2.43.0


From 4d22a74ca9acb6a6d61f4c56019320e57cc57f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 108/181] fix: read a unified logging error code as a signed
 integer

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 430c15d..53e7d08 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -603,7 +603,7 @@ class ErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         return darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
@@ -627,7 +627,7 @@ class ExtendedErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         error_message = darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
-- 
2.43.0


From a0a57a875ace113b559afcd2c14408ccf3799d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 109/181] fix: format a unified logging UUID value of another
 size as unsupported

---
 dtformats/unified_logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 53e7d08..1f90ddb 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1965,6 +1965,9 @@ class UUIDFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted UUID value.
         """
+        if len(value) != 16:
+            return "<decode: unsupported value>"
+
         uuid_value = uuid.UUID(bytes=value)
         return f"{uuid_value!s}".upper()
 
-- 
2.43.0


From 98559f850f977be72e89e0ca370c36d4158a3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 110/181] fix: format 0 without the alternate form in a unified
 logging message

---
 dtformats/unified_logging.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1f90ddb..fc6997a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1937,14 +1937,11 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
         integer_value = int.from_bytes(value, "little", signed=False)
 
         if format_string_operator:
-            if (
-                integer_value == 0
-                and format_string_operator.flags == "#"
-                and format_string_operator.specifier == "x"
-            ):
-                return f"{integer_value:x}"
-
             format_string = format_string_operator.GetPythonFormatString()
+
+            # Note that 0 has no alternate form.
+            if integer_value == 0 and format_string_operator.specifier != "p":
+                format_string = format_string.replace("#", "")
         else:
             format_string = "{0:d}"
 
-- 
2.43.0


From ad7634670084a463fddaa4b46579f17db05ed1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 111/181] fix: format a unified logging character that is out
 of bounds as unsupported

---
 dtformats/unified_logging.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index fc6997a..f796486 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1612,6 +1612,9 @@ class SignpostDescriptionAttributeFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            if specifier in ("c", "C") and integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
+
             if format_string_operator:
                 format_string = format_string_operator.GetPythonFormatString()
             else:
@@ -1750,6 +1753,9 @@ class SignpostTelemetryNumberFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            if specifier in ("c", "C") and integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
+
             if format_string_operator:
                 format_string = format_string_operator.GetPythonFormatString()
             else:
@@ -1937,6 +1943,12 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
         integer_value = int.from_bytes(value, "little", signed=False)
 
         if format_string_operator:
+            if (
+                format_string_operator.specifier in ("c", "C")
+                and integer_value > 0x10FFFF
+            ):
+                return "<decode: unsupported value>"
+
             format_string = format_string_operator.GetPythonFormatString()
 
             # Note that 0 has no alternate form.
-- 
2.43.0


From 80db6df1ee29a3946b806a64b27d445dd380e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:27 +0000
Subject: [PATCH 112/181] fix: raise ParseError on a DSC range with a UUID
 descriptor index out of bounds

---
 dtformats/unified_logging.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index f796486..ae28824 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2319,6 +2319,12 @@ class DSCFile(data_format.BinaryDataFile):
             )
         )
         for dsc_range in self.ranges:
+            if dsc_range.uuid_index >= len(self.uuids):
+                raise errors.ParseError(
+                    f"UUID descriptor index: {dsc_range.uuid_index:d} value out of "
+                    f"bounds."
+                )
+
             dsc_uuid = self.uuids[dsc_range.uuid_index]
 
             dsc_range.image_identifier = dsc_uuid.image_identifier
-- 
2.43.0


From e06ef941cfbf3266757d2e8c3a46301cc03072a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:27 +0000
Subject: [PATCH 113/181] fix: find a unified logging string in the range that
 contains its reference

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index ae28824..55264fb 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2268,7 +2268,7 @@ class DSCFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - range_offset
-            if relative_offset <= range_size:
+            if relative_offset < range_size:
                 if is_dynamic:
                     string = "%s"
                 else:
@@ -5285,7 +5285,7 @@ class UUIDTextFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - entry_descriptor.offset
-            if relative_offset <= entry_descriptor.data_size:
+            if relative_offset < entry_descriptor.data_size:
                 file_offset += relative_offset
                 return self._ReadString(self._file_object, file_offset)
 
-- 
2.43.0


From 48d87f93fe1fc5103443a363ee982cdf4f7396dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:27 +0000
Subject: [PATCH 114/181] fix: raise ParseError on a timesync record that is
 smaller than its values

---
 dtformats/unified_logging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 55264fb..826fcd2 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2428,7 +2428,12 @@ class TimesyncDatabaseFile(data_format.BinaryDataFile):
         file_offset = 0
 
         while file_offset < self._file_size:
-            record, _ = self._ReadRecord(self._file_object, file_offset)
+            record, bytes_read = self._ReadRecord(self._file_object, file_offset)
+            if record.record_size < bytes_read:
+                raise errors.ParseError(
+                    f"Record size: {record.record_size:d} value out of bounds."
+                )
+
             yield record
 
             file_offset += record.record_size
-- 
2.43.0


From f387caa7368dabfe56e8c5bf7e5f34a6ba688e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 115/181] fix: raise ParseError on a tracev3 catalog UUID index
 out of bounds

---
 dtformats/unified_logging.py | 45 ++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 826fcd2..39fe213 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2692,15 +2692,12 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
 
         for process_information_entry in catalog.process_information_entries:
-            if process_information_entry.main_uuid_index >= 0:
-                process_information_entry.main_uuid = catalog.uuids[
-                    process_information_entry.main_uuid_index
-                ]
-
-            if process_information_entry.dsc_uuid_index >= 0:
-                process_information_entry.dsc_uuid = catalog.uuids[
-                    process_information_entry.dsc_uuid_index
-                ]
+            process_information_entry.main_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.main_uuid_index
+            )
+            process_information_entry.dsc_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.dsc_uuid_index
+            )
 
             if self._debug:
                 for sub_system_entry in process_information_entry.sub_system_entries:
@@ -3100,6 +3097,30 @@ class TraceV3File(data_format.BinaryDataFile):
 
         return strings_map
 
+    def _GetCatalogUUID(self, catalog, uuid_index):
+        """Retrieves an UUID from the catalog.
+
+        Args:
+          catalog (tracev3_catalog): catalog.
+          uuid_index (int): index of the UUID, where a negative value represents
+              the UUID is not set.
+
+        Returns:
+          uuid.UUID: UUID or None if not set.
+
+        Raises:
+          ParseError: if the index is out of bounds.
+        """
+        if uuid_index < 0:
+            return None
+
+        if uuid_index >= len(catalog.uuids):
+            raise errors.ParseError(
+                f"Catalog UUID index: {uuid_index:d} value out of bounds."
+            )
+
+        return catalog.uuids[uuid_index]
+
     def _GetDataItemsAndValuesData(
         self,
         proc_id,
@@ -3218,9 +3239,9 @@ class TraceV3File(data_format.BinaryDataFile):
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
-                        strings_file_identifier = self._catalog.uuids[
-                            uuid_entry.uuid_index
-                        ]
+                        strings_file_identifier = self._GetCatalogUUID(
+                            self._catalog, uuid_entry.uuid_index
+                        )
 
                     image_text_offset = uuid_entry.load_address_lower | (
                         uuid_entry.load_address_upper << 32
-- 
2.43.0


From 2ea586b47fd1ebf498835133c3a71f6d6f21490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 116/181] fix: raise ParseError on a tracev3 tracepoint without
 process information

---
 dtformats/unified_logging.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 39fe213..774bc70 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3219,16 +3219,20 @@ class TraceV3File(data_format.BinaryDataFile):
         image_text_offset = 0
 
         if strings_file_type == 0x0002:
-            strings_file_identifier = process_information_entry.main_uuid
+            strings_file_identifier = getattr(
+                process_information_entry, "main_uuid", None
+            )
 
         if strings_file_type in (0x0004, 0x000C):
-            strings_file_identifier = process_information_entry.dsc_uuid
+            strings_file_identifier = getattr(
+                process_information_entry, "dsc_uuid", None
+            )
 
         if strings_file_type == 0x0008:
             load_address_upper = tracepoint_data_object.load_address_upper or 0
             load_address_lower = tracepoint_data_object.load_address_lower
 
-            for uuid_entry in process_information_entry.uuid_entries:
+            for uuid_entry in getattr(process_information_entry, "uuid_entries", []):
                 if (
                     load_address_upper != uuid_entry.load_address_upper
                     or load_address_lower < uuid_entry.load_address_lower
-- 
2.43.0


From ca046d1571687e812bab194d3ea77b893a6bd7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 117/181] fix: find the tracev3 catalog UUID entry that
 contains the load address

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 774bc70..1dbe6e8 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3239,7 +3239,7 @@ class TraceV3File(data_format.BinaryDataFile):
                 ):
                     continue
 
-                if load_address_lower <= (
+                if load_address_lower < (
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
-- 
2.43.0


From 021102382a1a52b9c07a541bc77fcc837f83a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 118/181] fix: do not reuse tracev3 image values of a different
 kind of reference

---
 dtformats/unified_logging.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1dbe6e8..929109e 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3264,13 +3264,25 @@ class TraceV3File(data_format.BinaryDataFile):
 
         uuid_string = strings_file_identifier.hex.upper()
 
-        lookup_key = f"{uuid_string:s}:0x{string_reference:x}"
+        large_offset_data = (
+            getattr(tracepoint_data_object, "large_offset_data", None) or 0
+        )
+        large_shared_cache_data = getattr(
+            tracepoint_data_object, "large_shared_cache_data", None
+        )
+
+        # Note that the image values depend on more than the string reference.
+        lookup_key = (
+            strings_file_type,
+            uuid_string,
+            string_reference,
+            is_dynamic,
+            image_text_offset,
+            large_offset_data,
+            large_shared_cache_data,
+        )
         image_values = self._cached_image_values.get(lookup_key)
         if not image_values:
-            large_offset_data = (
-                getattr(tracepoint_data_object, "large_offset_data", None) or 0
-            )
-
             if strings_file_type in self._UUIDTEXT_STRINGS_FILE_TYPES:
                 image_values = ImageValues(
                     identifier=strings_file_identifier, text_offset=image_text_offset
@@ -3298,9 +3310,6 @@ class TraceV3File(data_format.BinaryDataFile):
                         text_offset=image_text_offset,
                     )
 
-                large_shared_cache_data = getattr(
-                    tracepoint_data_object, "large_shared_cache_data", None
-                )
                 if large_offset_data and large_shared_cache_data:
                     calculated_large_offset_data = large_shared_cache_data >> 1
                     if large_offset_data != calculated_large_offset_data:
-- 
2.43.0


From 4c18ae806366eb9d33e8e042c117b0f8615773ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 119/181] fix: support a tracev3 signpost name without image
 values

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 929109e..64db71a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4346,7 +4346,7 @@ class TraceV3File(data_format.BinaryDataFile):
                             name_string_reference,
                             is_dynamic,
                         )
-                        name_string = name_image_values.string
+                        name_string = getattr(name_image_values, "string", None)
 
                     log_entry.signpost_identifier = getattr(
                         tracepoint_data_object, "signpost_identifier", None
-- 
2.43.0


From 877d793f072a164b89163fe4fb4d07d8710ab685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 120/181] fix: raise ParseError on tracev3 chunk set data that
 cannot be decompressed

---
 dtformats/unified_logging.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 64db71a..f945f0c 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3707,6 +3707,11 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the chunk header cannot be read.
         """
+        if chunk_header.chunk_data_size > self._file_size - file_offset:
+            raise errors.ParseError(
+                f"Chunk data size: {chunk_header.chunk_data_size:d} value out of bounds."
+            )
+
         chunk_data = file_object.read(chunk_header.chunk_data_size)
 
         data_type_map = self._GetDataTypeMap("tracev3_lz4_block_header")
@@ -3721,10 +3726,15 @@ class TraceV3File(data_format.BinaryDataFile):
         # TODO: add support for multi block compressed data.
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
-            uncompressed_data = lz4.block.decompress(
-                chunk_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    chunk_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                )
+            except (lz4.block.LZ4BlockError, MemoryError, ValueError) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress chunk set data with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
-- 
2.43.0


From af8b7f8447220be8593779297dd92e5228c5854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 121/181] fix: raise ParseError on missing tracev3 chunk or
 tracepoint data

---
 dtformats/unified_logging.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index f945f0c..aeb3b8b 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4938,6 +4938,35 @@ class TraceV3File(data_format.BinaryDataFile):
 
         yield log_entry
 
+    def _ReadStructureFromByteStream(
+        self, byte_stream, file_offset, data_type_map, description, context=None
+    ):
+        """Reads a structure from a byte stream.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          file_offset (int): offset of the structure data relative to the start
+              of the file-like object.
+          data_type_map (dtfabric.DataTypeMap): data type map of the structure.
+          description (str): description of the structure.
+          context (Optional[dtfabric.DataTypeMapContext]): data type map context.
+
+        Returns:
+          object: structure values object.
+
+        Raises:
+          ParseError: if the structure cannot be read.
+        """
+        if not byte_stream:
+            raise errors.ParseError(
+                f"Missing {description:s} data at offset: {file_offset:d} "
+                f"(0x{file_offset:08x})"
+            )
+
+        return super()._ReadStructureFromByteStream(
+            byte_stream, file_offset, data_type_map, description, context=context
+        )
+
     def _ReadTimesyncRecords(self, boot_identifier):
         """Reads the timesync records corresponding to the boot identifier.
 
-- 
2.43.0


From 26b8758624791575863a53804facd4638f67baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 122/181] fix: raise ParseError on tracev3 trace values that
 are out of bounds

---
 dtformats/unified_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index aeb3b8b..1660170 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4657,6 +4657,11 @@ class TraceV3File(data_format.BinaryDataFile):
         if not trace.number_of_values:
             return []
 
+        if trace.number_of_values >= len(values_data):
+            raise errors.ParseError(
+                f"Number of values: {trace.number_of_values:d} value out of bounds."
+            )
+
         values = []
 
         value_data_offset = 0
-- 
2.43.0


From f1693b660bc3822612f929b137e0295ff8881dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 123/181] fix: raise ParseError on a tracev3 backtrace
 identifier index out of bounds

---
 dtformats/unified_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1660170..b7fcd10 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3862,6 +3862,11 @@ class TraceV3File(data_format.BinaryDataFile):
                 backtrace_frame.image_identifier = uuid.UUID(
                     "00000000-0000-0000-0000-000000000000"
                 )
+            elif identifier_index >= len(backtrace_data.identifiers):
+                raise errors.ParseError(
+                    f"Backtrace identifier index: {identifier_index:d} value out of "
+                    f"bounds."
+                )
             else:
                 backtrace_frame.image_identifier = backtrace_data.identifiers[
                     identifier_index
-- 
2.43.0


From e17851c9be6f1964a79938c816903edfcec022e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 124/181] fix: support a tracev3 firehose chunk without
 tracepoints that have data items

---
 dtformats/unified_logging.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index b7fcd10..6414595 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4032,6 +4032,15 @@ class TraceV3File(data_format.BinaryDataFile):
                     f"catalog"
                 )
 
+        private_data_virtual_offset = (
+            firehose_header.private_data_virtual_offset & 0x0FFF
+        )
+        if not private_data_virtual_offset:
+            private_data = b""
+        else:
+            private_data_size = 4096 - private_data_virtual_offset
+            private_data = chunk_data[-private_data_size:]
+
         chunk_data_offset = 32
         while chunk_data_offset < firehose_header.public_data_size:
             if self._debug:
@@ -4214,16 +4223,7 @@ class TraceV3File(data_format.BinaryDataFile):
                         tracepoint_data_object, values_data, string_formatter
                     )
                 else:
-                    private_data_virtual_offset = (
-                        firehose_header.private_data_virtual_offset & 0x0FFF
-                    )
-                    if not private_data_virtual_offset:
-                        private_data = b""
-                    else:
-                        private_data_size = 4096 - private_data_virtual_offset
-                        private_data = chunk_data[-private_data_size:]
-
-                    data_items, values_data, private_data = (
+                    data_items, values_data, values_private_data = (
                         self._GetDataItemsAndValuesData(
                             proc_id,
                             tracepoint_data_object,
@@ -4232,8 +4232,8 @@ class TraceV3File(data_format.BinaryDataFile):
                             oversize_chunks,
                         )
                     )
-                    if self._debug and private_data:
-                        self._DebugPrintData("Private data", private_data)
+                    if self._debug and values_private_data:
+                        self._DebugPrintData("Private data", values_private_data)
 
                     backtrace_frames = self._ReadBacktraceData(
                         firehose_tracepoint.flags,
@@ -4257,7 +4257,7 @@ class TraceV3File(data_format.BinaryDataFile):
                         values = self._ReadDataItems(
                             data_items,
                             values_data,
-                            private_data,
+                            values_private_data,
                             private_data_offset,
                             string_formatter,
                         )
-- 
2.43.0


From e03c62b817e25926e7de41acbf49378c343707e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 125/181] fix: raise ParseError on an unsupported tracev3 data
 item value type without debug

---
 dtformats/unified_logging.py | 51 ++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 6414595..65db446 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3906,7 +3906,7 @@ class TraceV3File(data_format.BinaryDataFile):
         precision = None
 
         for data_item in data_items:
-            value_data = None
+            value_data = b""
 
             if data_item.value_type in self._DATA_ITEM_NUMERIC_VALUE_TYPES:
                 value_data = data_item.data
@@ -3938,31 +3938,30 @@ class TraceV3File(data_format.BinaryDataFile):
                 debug_info = self._DEBUG_INFORMATION.get("tracev3_data_item")
                 self._DebugPrintStructureObject(data_item, debug_info)
 
-                if data_item.value_type not in (
-                    0x00,
-                    0x01,
-                    0x02,
-                    0x10,
-                    0x12,
-                    0x20,
-                    0x21,
-                    0x22,
-                    0x25,
-                    0x30,
-                    0x31,
-                    0x32,
-                    0x35,
-                    0x40,
-                    0x41,
-                    0x42,
-                    0x45,
-                    0x72,
-                    0xF2,
-                ):
-                    raise errors.ParseError(
-                        f"Unsupported data item value type: "
-                        f"0x{data_item.value_type:02x}."
-                    )
+            if data_item.value_type not in (
+                0x00,
+                0x01,
+                0x02,
+                0x10,
+                0x12,
+                0x20,
+                0x21,
+                0x22,
+                0x25,
+                0x30,
+                0x31,
+                0x32,
+                0x35,
+                0x40,
+                0x41,
+                0x42,
+                0x45,
+                0x72,
+                0xF2,
+            ):
+                raise errors.ParseError(
+                    f"Unsupported data item value type: 0x{data_item.value_type:02x}."
+                )
 
             if data_item.value_type in self._DATA_ITEM_PRECISION_VALUE_TYPES:
                 precision = int.from_bytes(value_data, "little", signed=False)
-- 
2.43.0


From db079db07bd8e7f9cbc052c2f6021cba60a009bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 126/181] fix: raise ParseError on an unified logging timebase
 denominator of 0

---
 dtformats/unified_logging.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 65db446..7d10c34 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5013,6 +5013,9 @@ class TraceV3File(data_format.BinaryDataFile):
                     self._timesync_boot_record = record
 
         if self._timesync_boot_record:
+            if not self._timesync_boot_record.timebase_denominator:
+                raise errors.ParseError("Unsupported timesync timebase denominator: 0")
+
             self._timesync_timebase = (
                 self._timesync_boot_record.timebase_numerator
                 / self._timesync_boot_record.timebase_denominator
@@ -5121,6 +5124,9 @@ class TraceV3File(data_format.BinaryDataFile):
 
         file_object.seek(file_offset, os.SEEK_SET)
 
+        if not header_chunk.timebase_denominator:
+            raise errors.ParseError("Unsupported header timebase denominator: 0")
+
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
         self._header_timebase = (
             header_chunk.timebase_numerator / header_chunk.timebase_denominator
-- 
2.43.0


From baee733be129463a6bfefd80cc36480ba3b000ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 127/181] fix: close the timesync files a tracev3 file reads

---
 dtformats/unified_logging.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 7d10c34..c208778 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5000,17 +5000,21 @@ class TraceV3File(data_format.BinaryDataFile):
 
             timesync_file = self._OpenTimesyncDatabaseFile(directory_entry)
 
-            for record in timesync_file.ReadRecords():
-                record_boot_identifier = getattr(record, "boot_identifier", None)
+            try:
+                for record in timesync_file.ReadRecords():
+                    record_boot_identifier = getattr(record, "boot_identifier", None)
+
+                    if self._timesync_boot_record:
+                        if record_boot_identifier:
+                            break
 
-                if self._timesync_boot_record:
-                    if record_boot_identifier:
-                        break
+                        self._timesync_sync_records.append(record)
 
-                    self._timesync_sync_records.append(record)
+                    elif record_boot_identifier == boot_identifier:
+                        self._timesync_boot_record = record
 
-                elif record_boot_identifier == boot_identifier:
-                    self._timesync_boot_record = record
+            finally:
+                timesync_file.Close()
 
         if self._timesync_boot_record:
             if not self._timesync_boot_record.timebase_denominator:
-- 
2.43.0


From 88d81f3f39ae21d77f0d0e3242b5d274e894354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 128/181] fix: determine tracev3 sub system string offsets in
 bytes

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index c208778..d0ad433 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3093,7 +3093,7 @@ class TraceV3File(data_format.BinaryDataFile):
         map_offset = 0
         for string in catalog.sub_system_strings:
             strings_map[map_offset] = string
-            map_offset += len(string) + 1
+            map_offset += len(string.encode("utf8")) + 1
 
         return strings_map
 
-- 
2.43.0


From bc9747ecda2b745d5e53a759cffa75a8486e171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 129/181] fix: support tracev3 sub system entries without
 strings in debug mode

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index d0ad433..d9cf110 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2709,7 +2709,7 @@ class TraceV3File(data_format.BinaryDataFile):
                     )
                     self._DebugPrintText(
                         f"Identifier: {sub_system_entry.identifier:d}, "
-                        f"Sub system: {sub_system:s}, Category: {category:s}\n"
+                        f"Sub system: {sub_system!s}, Category: {category!s}\n"
                     )
 
                 self._DebugPrintText("\n")
-- 
2.43.0


From 093fca35e7a67736752c311c95950b467de803e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 130/181] fix: do not use support files of a previous tracev3
 file

---
 dtformats/unified_logging.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index d9cf110..72ed243 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4982,6 +4982,7 @@ class TraceV3File(data_format.BinaryDataFile):
         Args:
           boot_identifier (str): boot identifier (UUID).
         """
+        self._sorted_timesync_sync_records = []
         self._timesync_boot_record = None
         self._timesync_sync_records = []
 
@@ -5041,10 +5042,15 @@ class TraceV3File(data_format.BinaryDataFile):
             if dsc_file:
                 dsc_file.Close()
 
+        self._cached_dsc_files.clear()
+
         for uuidtext_file in self._cached_uuidtext_files.values():
             if uuidtext_file:
                 uuidtext_file.Close()
 
+        self._cached_uuidtext_files.clear()
+        self._cached_image_values.clear()
+
         super().Close()
 
     def ReadFileObject(self, file_object):
@@ -5061,6 +5067,9 @@ class TraceV3File(data_format.BinaryDataFile):
         # * in ../ for *.logarchive/logdata.LiveData.tracev3
         # * in ../../ for .logarchive/*/*.tracev3
         # * in ../../uuidtext/ for /private/var/db/diagnostics/*/*.tracev3
+        self._timesync_path = None
+        self._uuidtext_path = None
+
         path_segments = self._file_system_helper.SplitPath(self._path)
 
         # Remove the filename from the path.
-- 
2.43.0


From 98cebe8f2ceb0bafe91b5f25d48ea11939668cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 131/181] fix: read all tracev3 log entries every time

---
 dtformats/unified_logging.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 72ed243..684bc1e 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2668,6 +2668,7 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
         self._catalog_strings_map = {}
         self._chunk_index = 0
+        self._chunks_offset = 0
         self._error_on_warning = error_on_warning
         self._header_timebase = 1.0
         self._header_timestamp = 0
@@ -5135,7 +5136,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
         file_offset += alignment
 
-        file_object.seek(file_offset, os.SEEK_SET)
+        self._chunks_offset = file_offset
 
         if not header_chunk.timebase_denominator:
             raise errors.ParseError("Unsupported header timebase denominator: 0")
@@ -5197,7 +5198,11 @@ class TraceV3File(data_format.BinaryDataFile):
 
             yield log_entry
 
-        file_offset = self._file_object.tell()
+        self._catalog = None
+        self._catalog_process_information_entries = {}
+        self._catalog_strings_map = {}
+
+        file_offset = self._chunks_offset
 
         oversize_chunks = {}
 
-- 
2.43.0


From 10e119ecc9f99699682c32e10a9783a6a2c7dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 132/181] fix: support a tracev3 file in a directory near the
 root

---
 dtformats/unified_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 684bc1e..abee73c 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5076,13 +5076,13 @@ class TraceV3File(data_format.BinaryDataFile):
         # Remove the filename from the path.
         path_segments.pop(-1)
 
-        lower_last_path_segment = path_segments[-1].lower()
-        if not lower_last_path_segment.endswith(".logarchive"):
+        lower_last_path_segment = path_segments[-1].lower() if path_segments else ""
+        if path_segments and not lower_last_path_segment.endswith(".logarchive"):
             path_segments.pop(-1)
             if path_segments:
                 lower_last_path_segment = path_segments[-1].lower()
 
-        if not lower_last_path_segment.endswith(".logarchive"):
+        if path_segments and not lower_last_path_segment.endswith(".logarchive"):
             path_segments.pop(-1)
             if path_segments:
                 lower_last_path_segment = path_segments[-1].lower()
-- 
2.43.0


From 37a43690bd74067df47dc620abb7724600cbb1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:16 +0000
Subject: [PATCH 133/181] fix: raise ParseError on a tracev3 StateDump decoder
 name that is not UTF-8

---
 dtformats/unified_logging.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index abee73c..fe27415 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4903,12 +4903,16 @@ class TraceV3File(data_format.BinaryDataFile):
         event_message = ""
         if statedump_chunk.state_data_type == 0x03:
             library_data = statedump_chunk.library.split(b"\x00", maxsplit=1)[0]
-            library = library_data.decode("utf8")
-
             decoder_type_data = statedump_chunk.decoder_type.split(b"\x00", maxsplit=1)[
                 0
             ]
-            decoder_type = decoder_type_data.decode("utf8")
+            try:
+                library = library_data.decode("utf8")
+                decoder_type = decoder_type_data.decode("utf8")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode StateDump decoder name with error: {exception!s}"
+                )
 
             decoder_name = f"{library:s}:{decoder_type:s}"
             decoder_class = self._FORMAT_STRING_DECODERS.get(decoder_name)
-- 
2.43.0


From afcc29f7b6117fe474fb020770e4c57b22c41c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 134/181] fix: find the timesync files of a log archive without
 a dsc directory

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index fe27415..6764f9a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5094,8 +5094,8 @@ class TraceV3File(data_format.BinaryDataFile):
         if lower_last_path_segment.endswith(".logarchive"):
             path_segments.append("dsc")
             dsc_path = self._file_system_helper.JoinPath(path_segments)
+            path_segments.pop(-1)
             if self._file_system_helper.CheckFileExistsByPath(dsc_path):
-                path_segments.pop(-1)
                 self._uuidtext_path = self._file_system_helper.JoinPath(path_segments)
 
         else:
-- 
2.43.0


From 0e5a1c976e6bfbeae1a34f12cff0f10cd2eb9885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 135/181] fix: limit the debug output of the catalog sub chunks
 to the catalog

---
 dtformats/unified_logging.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 6764f9a..280798a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3610,6 +3610,8 @@ class TraceV3File(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("tracev3_catalog")
 
+        catalog_offset = file_offset
+
         catalog, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "Catalog"
         )
@@ -3644,8 +3646,13 @@ class TraceV3File(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tracev3_catalog_sub_chunk")
 
         if self._debug:
+            catalog_end_offset = min(
+                catalog_offset + chunk_data_size, self._file_size
+            )
             file_object.seek(file_offset, os.SEEK_SET)
-            sub_chunks_data = file_object.read(chunk_data_size - bytes_read)
+            sub_chunks_data = file_object.read(
+                max(0, catalog_end_offset - file_offset)
+            )
             self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
 
         for _ in range(catalog.number_of_sub_chunks):
-- 
2.43.0


From 20207889d40421dc2764e51a79d4e3156f8bf392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 136/181] fix: do not format a date and time in nanoseconds
 beyond year 9999

---
 dtformats/data_format.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 37730c3..deebef3 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -442,6 +442,11 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        # Note that dfDateTime can take a very long time to determine a date that
+        # exceeds year 9999.
+        if not -62135596800 <= integer // 1000000000 <= 253402300799:
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTimeInNanoseconds(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
-- 
2.43.0


From 130b0c65ca52562ad9b7fa4a404f921ba779b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 137/181] fix: the names of WMI repository files are globs, not
 tuples

---
 dtformats/wmi_repository.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 576b057..0b3a24b 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3492,7 +3492,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         # Unsure how reliable this method is since multiple index[1-3].map files
         # can have the same sequence number but contain different mappings.
         for mapping_file_number in range(1, 4):
-            filename_as_glob, _ = self._FormatFilenameAsGlob(
+            filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
             path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
@@ -3851,7 +3851,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           IndexBinaryTreeFile: index binary tree file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("index.btr")
+        filename_as_glob = self._FormatFilenameAsGlob("index.btr")
         index_binary_tree_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3880,7 +3880,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           MappingFile: mapping file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob(filename)
+        filename_as_glob = self._FormatFilenameAsGlob(filename)
         mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
 
         mapping_file_path = glob.glob(mapping_file_glob)
@@ -3904,7 +3904,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           file: file-like object or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("mapping.ver")
+        filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
         mapping_version_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3925,7 +3925,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           ObjectsDataFile: objects data file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("objects.data")
+        filename_as_glob = self._FormatFilenameAsGlob("objects.data")
         objects_data_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3953,7 +3953,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           RepositoryFile: repository file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("cim.rep")
+        filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
         repository_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
-- 
2.43.0


From ec018f5b48bc637c21c2bab14a9445fb70a0e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 138/181] fix: WMI repository debug output of offsets and page
 numbers

---
 dtformats/wmi_repository.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 0b3a24b..2f7b124 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -344,13 +344,13 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             self._DebugPrintDecimalValue(f"Unknown2: {index:d}", value)
 
         for index, page_number in enumerate(page_body.sub_pages):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(
                 f"Sub page: {index:d} mapped page number", value_string
             )
 
         for index, key_offset in enumerate(page_body.key_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(key_offset)
+            value_string = self._FormatIntegerAsOffset(key_offset)
             self._DebugPrintValue(f"Key: {index:d} offset", value_string)
 
         number_of_bytes = page_body.key_data_size * 2
@@ -362,7 +362,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         self._DebugPrintDecimalValue("Number of values", page_body.number_of_values)
 
         for index, offset in enumerate(page_body.value_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(offset)
+            value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
         number_of_bytes = page_body.value_data_size * 2
@@ -532,7 +532,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             page_key_offset = key_offset * 2
 
             if self._debug:
-                value_string, _ = self._FormatIntegerAsOffset(page_key_offset)
+                value_string = self._FormatIntegerAsOffset(page_key_offset)
                 self._DebugPrintValue(
                     f"Page key: {page_key_index:d} offset", value_string
                 )
@@ -697,7 +697,7 @@ class MappingFile(data_format.BinaryDataFile):
             "  Number of entries", unknown_table.number_of_entries
         )
         for index, page_number in enumerate(unknown_table.entries):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(f"  Entry: {index:d} page number", value_string)
 
         self._DebugPrintText("\n")
@@ -1697,10 +1697,10 @@ class RepositoryFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "node cell"
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(file_offset)
+            value_string = self._FormatIntegerAsOffset(file_offset)
             self._DebugPrintValue("Node cell offset", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(file_offset + 4)
+            value_string = self._FormatIntegerAsOffset(file_offset + 4)
             self._DebugPrintValue("Data offset", value_string)
 
             if cell_number is not None:
@@ -2307,18 +2307,18 @@ class ClassDefinition(CIMObject):
         """
         lines = []
         for index, property_descriptor in enumerate(array_of_property_descriptors):
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.name_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} name offset", value_string
             )
             lines.append(line)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.definition_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} definition offset", value_string
             )
             lines.append(line)
@@ -2679,7 +2679,7 @@ class ClassDefinition(CIMObject):
             )
             self._DebugPrintValue("        Index", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 class_definition_property.value_data_offset
             )
             self._DebugPrintValue("        Value data offset", value_string)
@@ -3116,7 +3116,7 @@ class Instance(CIMObject):
             "unknown offset",
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(unknown_offset)
+            value_string = self._FormatIntegerAsOffset(unknown_offset)
             self._DebugPrintValue("Unknown offset", value_string)
 
         data_offset += 4
-- 
2.43.0


From 100b1484796fe542d4e4b9cad3fed486e1fe261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 139/181] fix: WMI repository directory names with glob
 characters

---
 dtformats/wmi_repository.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2f7b124..21cd593 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3495,7 +3495,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
-            path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+            path_with_glob = self._file_system_helper.JoinPath(
+                [glob.escape(path), filename_as_glob]
+            )
             mapping_file_glob = glob.glob(path_with_glob)
             if not mapping_file_glob:
                 continue
@@ -3853,7 +3855,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("index.btr")
         index_binary_tree_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
 
         index_binary_tree_file_path = glob.glob(index_binary_tree_file_glob)
@@ -3881,7 +3883,9 @@ class CIMRepository(data_format.BinaryDataFormat):
           MappingFile: mapping file or None if not available.
         """
         filename_as_glob = self._FormatFilenameAsGlob(filename)
-        mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+        mapping_file_glob = self._file_system_helper.JoinPath(
+            [glob.escape(path), filename_as_glob]
+        )
 
         mapping_file_path = glob.glob(mapping_file_glob)
         if not mapping_file_path:
@@ -3906,7 +3910,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
         mapping_version_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
 
         mapping_version_file_path = glob.glob(mapping_version_file_glob)
@@ -3927,7 +3931,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("objects.data")
         objects_data_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
 
         objects_data_file_path = glob.glob(objects_data_file_glob)
@@ -3955,7 +3959,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         """
         filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
         repository_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
+            [glob.escape(path), filename_as_glob]
         )
         repository_file_path = glob.glob(repository_file_glob)
         if not repository_file_path:
-- 
2.43.0


From 4580cf372464eca5f41c4bf5a128dc651674f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:22 +0000
Subject: [PATCH 140/181] fix: close the mapping and repository files of a WMI
 repository

---
 dtformats/wmi_repository.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 21cd593..8ae25c9 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3510,12 +3510,12 @@ class CIMRepository(data_format.BinaryDataFormat):
             )
             # TODO: change to only read limited information.
             mapping_file.Open(mapping_file_glob[0])
+            mapping_file.Close()
 
             if not active_mapping_file:
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
             elif mapping_file.sequence_number > active_mapping_file.sequence_number:
-                active_mapping_file.Close()
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
 
@@ -3873,7 +3873,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         return index_binary_tree_file
 
     def _OpenMappingFile(self, path, filename):
-        """Opens a mapping file.
+        """Opens, reads and closes a mapping file.
 
         Args:
           path (str): path to the CIM repository.
@@ -3896,6 +3896,7 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         mapping_file = MappingFile(debug=self._debug, output_writer=self._output_writer)
         mapping_file.Open(mapping_file_path[0])
+        mapping_file.Close()
 
         return mapping_file
 
@@ -4200,6 +4201,10 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._index_binary_tree_file.Close()
             self._index_binary_tree_file = None
 
+        if self._repository_file:
+            self._repository_file.Close()
+            self._repository_file = None
+
     def GetInstances(self):
         """Retrieves instances.
 
@@ -4306,9 +4311,6 @@ class CIMRepository(data_format.BinaryDataFormat):
             else:
                 self.format_version = "2.2"
 
-            if basename == "index.btr" or not active_mapping_file:
-                index_mapping_file.Close()
-
             self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
 
             if basename == "index.btr":
@@ -4322,8 +4324,6 @@ class CIMRepository(data_format.BinaryDataFormat):
 
             self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
 
-            objects_mapping_file.Close()
-
             self._objects_data_file = self._OpenObjectsDataFile(path)
 
             self._ReadClassDefinitionsFromObjectRecords()
-- 
2.43.0


From 1b136591c78d0452ea58b76c7abd8a8534ebb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:22 +0000
Subject: [PATCH 141/181] fix: WMI repository mapped page number outside of the
 mapping table

---
 dtformats/wmi_repository.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 8ae25c9..a8aa47f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -189,7 +189,15 @@ class MappingTable:
 
         Returns:
           int: (physical) page number.
+
+        Raises:
+          ParseError: if there is no mapping for the mapped page number.
         """
+        if not 0 <= mapped_page_number < len(self._mapping_table.entries):
+            raise errors.ParseError(
+                f"Missing mapping of mapped page number: {mapped_page_number:d}"
+            )
+
         mapping_table_entry = self._mapping_table.entries[mapped_page_number]
         return mapping_table_entry.page_number
 
-- 
2.43.0


From 12ff8dacd76d8d0f69dc582c8f88b0bfdf91f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:22 +0000
Subject: [PATCH 142/181] fix: WMI repository without mapping or index file

---
 dtformats/wmi_repository.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index a8aa47f..0889c45 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3533,7 +3533,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         ):
             logging.warning("Mismatch in active mapping file number.")
 
-        if self._debug:
+        if self._debug and active_mapping_file:
             self._DebugPrintText(
                 f"Active mapping file: mapping{active_mapping_file_number:d}.map\n"
             )
@@ -4282,6 +4282,9 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         Args:
           path (str): path to the CIM repository or an individual file.
+
+        Raises:
+          ParseError: if the CIM repository cannot be read.
         """
         basename = os.path.basename(path).lower()
 
@@ -4312,6 +4315,9 @@ class CIMRepository(data_format.BinaryDataFormat):
                 active_mapping_file = self._GetActiveMappingFile(path)
                 index_mapping_file = active_mapping_file
 
+            if not index_mapping_file:
+                raise errors.ParseError("Missing index mapping file.")
+
             self._index_mapping_table = index_mapping_file.GetIndexMappingTable()
 
             if index_mapping_file.format_version == 1:
@@ -4324,12 +4330,18 @@ class CIMRepository(data_format.BinaryDataFormat):
             if basename == "index.btr":
                 return
 
+            if not self._index_binary_tree_file:
+                raise errors.ParseError("Missing index binary-tree file.")
+
             objects_mapping_file = self._OpenMappingFile(path, "objects.map")
             if not objects_mapping_file:
                 if not active_mapping_file:
                     active_mapping_file = self._GetActiveMappingFile(path)
                 objects_mapping_file = active_mapping_file
 
+            if not objects_mapping_file:
+                raise errors.ParseError("Missing objects mapping file.")
+
             self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
 
             self._objects_data_file = self._OpenObjectsDataFile(path)
-- 
2.43.0


From 0c9fce958b0343ebad4f79a6959e1072b43c9908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:22 +0000
Subject: [PATCH 143/181] fix: WMI repository key of which there is no object
 record

---
 dtformats/wmi_repository.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 0889c45..06f2fe6 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3785,6 +3785,12 @@ class CIMRepository(data_format.BinaryDataFormat):
                 object_descriptor = object_page.GetObjectDescriptor(
                     record_identifier, data_size
                 )
+                if not object_descriptor:
+                    raise errors.ParseError(
+                        f"Unable to read objects record: {record_identifier:d} "
+                        f"descriptor."
+                    )
+
 
                 data_offset = object_descriptor.data_offset
                 is_data_page = True
@@ -4273,6 +4279,9 @@ class CIMRepository(data_format.BinaryDataFormat):
         data_type, _, mapped_page_number, record_identifier, data_size = (
             self._GetObjectRecordValuesFromKey(key_segments[-1])
         )
+        if data_type is None:
+            return None
+
         return self._GetObjectRecord(
             data_type, mapped_page_number, record_identifier, data_size
         )
-- 
2.43.0


From 8a21cbbb123e0971891d6c48bfbcb137af0a6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 144/181] fix: WMI repository object record data outside of its
 page or of the file

---
 dtformats/wmi_repository.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 06f2fe6..d9d4514 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1058,6 +1058,11 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the object record data segment cannot be read.
         """
+        if data_offset >= self._PAGE_SIZE:
+            raise errors.ParseError(
+                f"Object record data offset: {data_offset:d} outside of page."
+            )
+
         # Make the offset relative to the start of the file.
         file_offset = objects_page.page_offset + data_offset
 
@@ -1076,7 +1081,14 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         else:
             read_size = data_size
 
-        return self._file_object.read(read_size)
+        data_segment = self._file_object.read(read_size)
+        if len(data_segment) != read_size:
+            raise errors.ParseError(
+                f"Unable to read object record data segment at offset: "
+                f"{file_offset:d} (0x{file_offset:08x})."
+            )
+
+        return data_segment
 
 
 class RepositoryFile(data_format.BinaryDataFile):
-- 
2.43.0


From 2d32b16abbaab006d601aae22bdc375ca4b5d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 145/181] fix: WMI repository index pages that refer to each
 other

---
 dtformats/wmi_repository.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index d9d4514..48ea3c2 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3729,15 +3729,32 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         Yields:
           str: a CIM key.
+
+        Raises:
+          ParseError: if a page is the sub page of more than one page.
         """
         if index_page:
             yield from index_page.keys
 
-            for mapped_page_number in index_page.sub_pages:
+            mapped_page_numbers = set()
+            remaining_sub_pages = list(reversed(index_page.sub_pages))
+
+            while remaining_sub_pages:
+                mapped_page_number = remaining_sub_pages.pop()
+                if mapped_page_number in mapped_page_numbers:
+                    raise errors.ParseError(
+                        f"Sub page: {mapped_page_number:d} already read."
+                    )
+
+                mapped_page_numbers.add(mapped_page_number)
+
                 sub_index_page = self._GetIndexPageByMappedPageNumber(
                     mapped_page_number
                 )
-                yield from self._GetKeysFromIndexPage(sub_index_page)
+                if sub_index_page:
+                    yield from sub_index_page.keys
+
+                    remaining_sub_pages.extend(reversed(sub_index_page.sub_pages))
 
     def _GetObjectsPageByMappedPageNumber(self, mapped_page_number, is_data_page):
         """Retrieves a specific objects page by mapped page number.
-- 
2.43.0


From 5919506f69038f04a70ece73229475a445ba2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 146/181] fix: WMI repository page key that refers to a missing
 page value

---
 dtformats/wmi_repository.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 48ea3c2..4f0e05c 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -481,6 +481,11 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             for page_key_segments in index_binary_tree_page.page_key_segments:
                 key_segments = []
                 for segment_index in page_key_segments:
+                    if segment_index >= len(index_binary_tree_page.page_values):
+                        raise errors.ParseError(
+                            f"Missing page value: {segment_index:d} of page key."
+                        )
+
                     page_value = index_binary_tree_page.page_values[segment_index]
                     key_segments.append(page_value)
 
-- 
2.43.0


From 2385b02fcf85f2de20464dbe6bf6616077ae74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 147/181] fix: WMI repository page body data in debug output

---
 dtformats/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 4f0e05c..3d09a58 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -453,7 +453,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
 
             if self._debug:
                 self._DebugPrintData(
-                    "Page body data", page_body_data[:page_data_offset]
+                    "Page body data", page_body_data[: context.byte_size]
                 )
 
             if self._debug:
-- 
2.43.0


From 956fbc30659aec01d919b7d530c3f1b6bbf17cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 148/181] fix: WMI repository value data size in debug output
 is in bytes

---
 dtformats/wmi_repository.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 3d09a58..0de2a45 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -373,10 +373,8 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
-        number_of_bytes = page_body.value_data_size * 2
         self._DebugPrintValue(
-            "Value data size",
-            f"{page_body.value_data_size:d} ({number_of_bytes:d} bytes)",
+            "Value data size", f"{page_body.value_data_size:d} bytes"
         )
         self._DebugPrintData("Value data", page_body.value_data)
 
-- 
2.43.0


From 9582490ee12434afc9e2d320f6cb926be6cfc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 149/181] fix: WMI class definition and instance references
 ignored debug

---
 dtformats/wmi_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 0de2a45..0d50c4c 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2847,7 +2847,7 @@ class ClassDefinitionReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self.data = None
         self.offset = None
         self.super_class_name = None
@@ -2913,7 +2913,7 @@ class InstanceReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self._format_version = format_version
         self.class_name = None
         self.class_name_hash = None
-- 
2.43.0


From 65e050523529cdf3764e4a54155390aa0d6b27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 150/181] fix: WMI qualifier with a 32-bit unsigned integer
 value

---
 dtformats/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 0d50c4c..fe6db58 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2638,7 +2638,7 @@ class ClassDefinition(CIMObject):
                 "CIM-TYPE-SINT8",
                 "CIM-TYPE-UINT8",
                 "CIM-TYPE-UINT16",
-                "CIM-TYPE-UINT16",
+                "CIM-TYPE-UINT32",
                 "CIM-TYPE-SINT64",
                 "CIM-TYPE-UINT64",
             ):
-- 
2.43.0


From 9cf606b52e737fda8a60f6ea65e6950cecfeb36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 151/181] fix: WMI classes of which the super class is missing
 or the class itself

---
 dtformats/wmi_repository.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index fe6db58..a2ba780 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3593,6 +3593,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           ClassValueMap: class value map or None.
 
         Raises:
+          ParseError: if a class definition is its own super class.
           RuntimeError: if a class definition cannot be found.
         """
         lookup_key = class_name_hash.lower()
@@ -3610,17 +3611,21 @@ class CIMRepository(data_format.BinaryDataFormat):
 
             class_definitions = [class_definition]
             while class_definition.super_class_name:
-                class_definition = self._GetClassDefinitionByName(
-                    class_definition.super_class_name
-                )
+                super_class_name = class_definition.super_class_name
+                class_definition = self._GetClassDefinitionByName(super_class_name)
                 if not class_definition:
                     raise RuntimeError(
                         (
                             f"Unable to retrieve definition of class with name: "
-                            f"{class_definition.super_class_name:s}"
+                            f"{super_class_name:s}"
                         )
                     )
 
+                if class_definition in class_definitions:
+                    raise errors.ParseError(
+                        f"Class: {super_class_name:s} is its own super class."
+                    )
+
                 class_definitions.append(class_definition)
 
             # The ClassValueDataMap.Build functions want the class definitions
-- 
2.43.0


From 01ee9ad9b84a38538bd25622359e699dbcadebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:23 +0000
Subject: [PATCH 152/181] fix: WMI type qualifier that is not a string

---
 dtformats/wmi_repository.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index a2ba780..9873f1e 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -120,6 +120,13 @@ class ClassValueDataMap:
                     property_definition.value_data_offset,
                     value_data_size,
                 )
+                if not isinstance(type_qualifier, str):
+                    raise errors.ParseError(
+                        f"Unsupported type qualifier for property: "
+                        f"{property_definition.name:s} of class: "
+                        f"{class_definition.name:s}"
+                    )
+
                 type_qualifier_lower = type_qualifier.lower()
                 if ":" in type_qualifier_lower:
                     type_qualifier_lower, _, _ = type_qualifier_lower.partition(":")
-- 
2.43.0


From db482b638d788d1876fe96274f6372961b3a9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 153/181] fix: WMI instance property values of all integer and
 floating-point types

---
 dtformats/wmi_repository.py   |  4 ++++
 dtformats/wmi_repository.yaml | 38 +++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 9873f1e..2782cc3 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3175,6 +3175,10 @@ class Instance(CIMObject):
                     f"property_value_{property_value_data_map.type_qualifier:s}"
                 )
                 data_type_map = self._GetDataTypeMap(data_type_map_name)
+                if not data_type_map:
+                    raise errors.ParseError(
+                        f"Unsupported type qualifier of {description:s}"
+                    )
 
                 property_value = self._ReadStructureFromByteStream(
                     property_values_data[property_map_offset:],
diff --git a/dtformats/wmi_repository.yaml b/dtformats/wmi_repository.yaml
index 97cc340..b2404cb 100644
--- a/dtformats/wmi_repository.yaml
+++ b/dtformats/wmi_repository.yaml
@@ -514,6 +514,44 @@ attributes:
   size: 8
   units: bytes
 ---
+name: property_value_sint8
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 1
+  units: bytes
+---
+name: property_value_sint16
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 2
+  units: bytes
+---
+name: property_value_sint64
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 8
+  units: bytes
+---
+name: property_value_real32
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 4
+  units: bytes
+---
+name: property_value_real64
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 8
+  units: bytes
+---
 name: property_value_offset
 type: integer
 attributes:
-- 
2.43.0


From 14e8c0f73261af52f4f05862e8726d635344c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 154/181] fix: WMI namespace keys without class and instances
 without name

---
 dtformats/wmi_repository.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2782cc3..7846390 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4172,7 +4172,11 @@ class CIMRepository(data_format.BinaryDataFormat):
             yield name_hash, object_record
 
     def _ReadNamespacesFromObjectRecords(self):
-        """Reads namespaces from object records."""
+        """Reads namespaces from object records.
+
+        Raises:
+          ParseError: if the namespaces cannot be read.
+        """
         class_name_hash = self._GetHashFromString("__NAMESPACE")
 
         object_record_values = set()
@@ -4190,6 +4194,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespace_hash = key_segment[3:].lower()
             parent_namespaces.add(namespace_hash)
 
+            if len(key_segments) < 3:
+                continue
+
             _, _, key_segment = key_segments[2].partition("_")
             if key_segment.lower() != class_name_hash:
                 continue
@@ -4234,6 +4241,8 @@ class CIMRepository(data_format.BinaryDataFormat):
 
                 for instance in instances:
                     name_property = instance.properties.get("Name")
+                    if not isinstance(name_property, str):
+                        raise errors.ParseError("Missing name of namespace instance.")
 
                     namespace = "\\".join([parent_namespace, name_property])
 
-- 
2.43.0


From a8f40dcf95f7e8f4e2b8e872fae891f202a93f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 155/181] fix: WMI namespaces of any depth

---
 dtformats/wmi_repository.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 7846390..b402c19 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4227,7 +4227,10 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespace_hash = self._GetHashFromString(namespace)
             namespaces_by_hash[namespace_hash] = namespace
 
-        for _ in range(5):
+        number_of_namespaces = 0
+        while len(namespaces_by_hash) != number_of_namespaces:
+            number_of_namespaces = len(namespaces_by_hash)
+
             unresolved_namespaces = set()
             for parent_namespace_hash in parent_namespaces:
                 parent_namespace = namespaces_by_hash.get(parent_namespace_hash)
-- 
2.43.0


From 88bbb18cd3fcad3bb3cddc25848734b8f5c463b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 156/181] fix: WMI object record offsets of class definition
 and instance blocks

---
 dtformats/wmi_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index b402c19..c0708ec 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2890,7 +2890,7 @@ class ClassDefinitionReference(CIMObject):
             )
 
         self.data = class_definition_object_record.class_definition_block_data
-        self.offset = context.byte_size
+        self.offset = context.byte_size - len(self.data)
         self.super_class_name = class_definition_object_record.super_class_name
 
 
@@ -2956,7 +2956,7 @@ class InstanceReference(CIMObject):
         if self._format_version == "2.1":
             self.offset = 84
         else:
-            self.offset = 144
+            self.offset = 148
 
         self.class_name_hash = instance_object_record.class_name_hash
         self.data = instance_object_record.instance_block_data
-- 
2.43.0


From 1e833854879ec5a5b0641b9efba2bae13b5e8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 157/181] fix: raise ParseError when the data of a WMI object
 ends before a structure

---
 dtformats/wmi_repository.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index c0708ec..68153fb 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2234,6 +2234,35 @@ class CIMObject(data_format.BinaryDataFormat):
 
         return cim_string.string
 
+    def _ReadStructureFromByteStream(
+        self, byte_stream, file_offset, data_type_map, description, context=None
+    ):
+        """Reads a structure from a byte stream.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          file_offset (int): offset of the structure data relative to the start
+              of the object record data.
+          data_type_map (dtfabric.DataTypeMap): data type map of the structure.
+          description (str): description of the structure.
+          context (Optional[dtfabric.DataTypeMapContext]): data type map context.
+
+        Returns:
+          object: structure values object.
+
+        Raises:
+          ParseError: if the structure cannot be read.
+        """
+        if not byte_stream:
+            raise errors.ParseError(
+                f"Missing {description:s} data at offset: {file_offset:d} "
+                f"(0x{file_offset:08x})"
+            )
+
+        return super()._ReadStructureFromByteStream(
+            byte_stream, file_offset, data_type_map, description, context=context
+        )
+
 
 class ClassDefinition(CIMObject):
     """Class definition.
-- 
2.43.0


From 0fe1163110a18d879981dac86986c085c30640f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 158/181] fix: order of the namespaces of a WMI repository
 depended on the hash seed

---
 dtformats/wmi_repository.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 68153fb..4fbbc60 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4210,7 +4210,8 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         object_record_values = set()
         instances_per_namespace = {}
-        parent_namespaces = set()
+        # A dictionary preserves the order, a set does not.
+        parent_namespaces = {}
 
         index_page = self._GetIndexRootPage()
         for key in self._GetKeysFromIndexPage(index_page):
@@ -4221,7 +4222,7 @@ class CIMRepository(data_format.BinaryDataFormat):
                 continue
 
             namespace_hash = key_segment[3:].lower()
-            parent_namespaces.add(namespace_hash)
+            parent_namespaces[namespace_hash] = None
 
             if len(key_segments) < 3:
                 continue
@@ -4260,11 +4261,11 @@ class CIMRepository(data_format.BinaryDataFormat):
         while len(namespaces_by_hash) != number_of_namespaces:
             number_of_namespaces = len(namespaces_by_hash)
 
-            unresolved_namespaces = set()
+            unresolved_namespaces = {}
             for parent_namespace_hash in parent_namespaces:
                 parent_namespace = namespaces_by_hash.get(parent_namespace_hash)
                 if not parent_namespace:
-                    unresolved_namespaces.add(parent_namespace_hash)
+                    unresolved_namespaces[parent_namespace_hash] = None
                     continue
 
                 instances = instances_per_namespace.get(parent_namespace_hash)
-- 
2.43.0


From 4ce35a4a7fd4bbb6f96363c71f031b9bbb8847cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 159/181] fix: keep the namespaces of a WMI repository only if
 all of them were read

---
 dtformats/wmi_repository.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 4fbbc60..46ca1ad 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4257,6 +4257,7 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespace_hash = self._GetHashFromString(namespace)
             namespaces_by_hash[namespace_hash] = namespace
 
+        namespace_instances = []
         number_of_namespaces = 0
         while len(namespaces_by_hash) != number_of_namespaces:
             number_of_namespaces = len(namespaces_by_hash)
@@ -4283,10 +4284,12 @@ class CIMRepository(data_format.BinaryDataFormat):
                     namespaces_by_hash[namespace_hash] = namespace
 
                     instance.namespace = namespace
-                    self._namespace_instances.append(instance)
+                    namespace_instances.append(instance)
 
             parent_namespaces = unresolved_namespaces
 
+        self._namespace_instances = namespace_instances
+
     def Close(self):
         """Closes the CIM repository."""
         self._class_definitions_by_hash = {}
-- 
2.43.0


From 83e1e84fd4b95929f1bc3568b311824fdba101be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:24 +0000
Subject: [PATCH 160/181] fix: raise ParseError when a WMI repository page
 value has no end-of-string

---
 dtformats/wmi_repository.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 46ca1ad..a67f347 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -607,7 +607,10 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
                 value_string = self._STRING.MapByteStream(
                     value_data[page_value_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to parse page value: {index:d} string with error: "
                     f"{exception!s}"
-- 
2.43.0


From 83f3e797795a0d75ab39488a8b5fbcfaa8d959b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:24 +0000
Subject: [PATCH 161/181] fix: raise ParseError when a WMI repository page key
 is outside of the key data

---
 dtformats/wmi_repository.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index a67f347..dfabbdf 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -555,6 +555,11 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
                     f"Page key: {page_key_index:d} offset", value_string
                 )
 
+            if page_key_offset >= len(key_data):
+                raise errors.ParseError(
+                    f"Page key: {page_key_index:d} offset outside of key data."
+                )
+
             context = dtfabric_data_maps.DataTypeMapContext()
 
             page_key = self._ReadStructureFromByteStream(
-- 
2.43.0


From 2cecb056d1d86a8570e12167acb106658fd6afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:33 +0000
Subject: [PATCH 162/181] fix: CIM repository file with a node cell that has
 only flags in its size never opens

---
 dtformats/wmi_repository.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index dfabbdf..c1c89c7 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2156,7 +2156,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             node_cell = self._ReadNodeCell(
                 file_object, file_offset, cell_number=cell_number
             )
-            if node_cell.size == 0:
+            node_cell_size = node_cell.size & 0x7FFFFFF
+            if node_cell_size == 0:
                 break
 
             if file_header.root_namespace_cell_number == cell_number:
@@ -2164,7 +2165,7 @@ class RepositoryFile(data_format.BinaryDataFile):
             elif file_header.system_class_cell_number == cell_number:
                 self._system_class_definition_root_node_offset = file_offset + 4
 
-            file_offset += node_cell.size & 0x7FFFFFF
+            file_offset += node_cell_size
             cell_number += 1
 
             if (
-- 
2.43.0


From f4be42d53175f4f41aa5c09dbe42df4a41a276d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:33 +0000
Subject: [PATCH 163/181] fix: CIM repository file without a root namespace or
 system class raises TypeError

---
 dtformats/wmi_repository.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index c1c89c7..9447df5 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2095,7 +2095,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._system_class_definition_root_node_offset > 40:
+        if (self._system_class_definition_root_node_offset or 0) > 40:
             yield from self._ReadClassDefinitionHierarchy(
                 self._file_object, self._system_class_definition_root_node_offset
             )
@@ -2106,7 +2106,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if (self._root_namespace_node_offset or 0) > 40:
             yield from self._ReadInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset
             )
@@ -2117,7 +2117,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if (self._root_namespace_node_offset or 0) > 40:
             yield from self._ReadNamespaceInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset, []
             )
-- 
2.43.0


From 7289da6c8a423e43d15e0b647a1242fa1437bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:25 +0000
Subject: [PATCH 164/181] fix: CIM repository file with an incomplete instance
 raises AttributeError or yields None

---
 dtformats/wmi_repository.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 9447df5..b0cd3a4 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1865,7 +1865,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     instance = self._ReadInstance(file_object, value_node_offset)
-                    yield instance
+                    if instance:
+                        yield instance
 
         if root_node.sub_node_offset > 40 and root_node.sub_node_type in (9, 10):
             for value_node_offset in self._ReadChildObjectsTree(
@@ -1923,6 +1924,9 @@ class RepositoryFile(data_format.BinaryDataFile):
         class_definition = self._ReadClassDefinition(
             file_object, root_node.class_definition_branch_node_offset
         )
+        if not class_definition:
+            return None
+
         node_cell = self._ReadNodeCell(
             file_object, instance_branch_node.instance_leaf_node_offset - 4
         )
@@ -1979,7 +1983,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            yield instance
+            if instance:
+                yield instance
 
         if self._debug:
             if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
@@ -2060,7 +2065,12 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
+            if not instance:
+                return
+
             name_property = instance.properties.get("Name")
+            if not isinstance(name_property, str):
+                raise errors.ParseError("Missing name of namespace instance.")
 
             namespace_segments = list(parent_namespace_segments)
             namespace_segments.append(name_property)
-- 
2.43.0


From 318584b5ccd347505cfe9521983fc1888b70aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:25 +0000
Subject: [PATCH 165/181] fix: debug output of CIM repository file reads the
 instance node as its class definitions

---
 dtformats/wmi_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index b0cd3a4..89f30f6 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2033,15 +2033,15 @@ class RepositoryFile(data_format.BinaryDataFile):
                 ):
                     if value_node_offset > 40:
                         node_cell = self._ReadNodeCell(
-                            file_object, root_node_offset - 4
+                            file_object, value_node_offset - 4
                         )
-                        root_node = self._ReadClassDefinitionRootNode(
-                            node_cell.data, root_node_offset
+                        class_root_node = self._ReadClassDefinitionRootNode(
+                            node_cell.data, value_node_offset
                         )
-                        if root_node.class_definition_branch_node_offset > 40:
+                        if class_root_node.class_definition_branch_node_offset > 40:
                             self._ReadClassDefinition(
                                 file_object,
-                                root_node.class_definition_branch_node_offset,
+                                class_root_node.class_definition_branch_node_offset,
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-- 
2.43.0


From 5747a28d0daa2167f7762ee9466a8bb50a4f8435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:25 +0000
Subject: [PATCH 166/181] fix: raise ParseError when a node cell of a CIM
 repository file has no data

---
 dtformats/wmi_repository.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 89f30f6..4c45132 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1781,6 +1781,35 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         return unknown_node
 
+    def _ReadStructureFromByteStream(
+        self, byte_stream, file_offset, data_type_map, description, context=None
+    ):
+        """Reads a structure from a byte stream.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          file_offset (int): offset of the structure data relative to the start
+              of the file.
+          data_type_map (dtfabric.DataTypeMap): data type map of the structure.
+          description (str): description of the structure.
+          context (Optional[dtfabric.DataTypeMapContext]): data type map context.
+
+        Returns:
+          object: structure values object.
+
+        Raises:
+          ParseError: if the structure cannot be read.
+        """
+        if not byte_stream:
+            raise errors.ParseError(
+                f"Missing {description:s} data at offset: {file_offset:d} "
+                f"(0x{file_offset:08x})"
+            )
+
+        return super()._ReadStructureFromByteStream(
+            byte_stream, file_offset, data_type_map, description, context=context
+        )
+
     def _ReadClassDefinition(self, file_object, branch_node_offset):
         """Reads a class definition.
 
-- 
2.43.0


From 282b01aaa5fb8855f1d2e721775f6ee66737968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:25 +0000
Subject: [PATCH 167/181] fix: CIM repository file with a loop of nodes is read
 forever or raises RecursionError

---
 dtformats/wmi_repository.py | 73 +++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 4c45132..c6a6f26 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1155,6 +1155,27 @@ class RepositoryFile(data_format.BinaryDataFile):
         self._root_namespace_node_offset = None
         self._system_class_definition_root_node_offset = None
 
+    def _AppendNodeOffset(self, node_offsets, node_offset):
+        """Appends the offset of a node to those of its parents.
+
+        Args:
+          node_offsets (tuple[int]): offsets of the parent nodes.
+          node_offset (int): offset of the node.
+
+        Returns:
+          tuple[int]: offsets of the parent nodes and the node.
+
+        Raises:
+          ParseError: if the node is one of its own parents.
+        """
+        if node_offset in node_offsets:
+            raise errors.ParseError(
+                f"Node at offset: {node_offset:d} (0x{node_offset:08x}) is part of a "
+                f"loop"
+            )
+
+        return (*node_offsets, node_offset)
+
     def _ReadChildObjectsList(self, file_object, list_node_offset):
         """Reads a child objects list.
 
@@ -1165,14 +1186,25 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         Yields:
           int: element value offset.
+
+        Raises:
+          ParseError: if the list cannot be read.
         """
         node_cell = self._ReadNodeCell(file_object, list_node_offset - 4)
         list_node = self._ReadChildObjectsListNode(node_cell.data, list_node_offset)
 
         list_element = 1
+        list_element_node_offsets = set()
         next_list_element_node_offset = list_node.first_list_element_node_offset
 
         while next_list_element_node_offset > 40:
+            if next_list_element_node_offset in list_element_node_offsets:
+                raise errors.ParseError(
+                    f"List element node at offset: {next_list_element_node_offset:d} "
+                    f"(0x{next_list_element_node_offset:08x}) is part of a loop"
+                )
+            list_element_node_offsets.add(next_list_element_node_offset)
+
             if self._debug:
                 self._DebugPrintText(f"Reading list element: {list_element:d}\n")
 
@@ -1852,17 +1884,26 @@ class RepositoryFile(data_format.BinaryDataFile):
           Instance: instance.
         """
 
-    def _ReadClassDefinitionHierarchy(self, file_object, root_node_offset):
+    def _ReadClassDefinitionHierarchy(
+        self, file_object, root_node_offset, parent_node_offsets=()
+    ):
         """Reads the class definition hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          parent_node_offsets (Optional[tuple[int]]): offsets of the parent root
+              nodes.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the hierarchy cannot be read.
         """
+        node_offsets = self._AppendNodeOffset(parent_node_offsets, root_node_offset)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadClassDefinitionRootNode(node_cell.data, root_node_offset)
 
@@ -1903,7 +1944,9 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     yield from self._ReadClassDefinitionHierarchy(
-                        file_object, value_node_offset
+                        file_object,
+                        value_node_offset,
+                        parent_node_offsets=node_offsets,
                     )
 
         if self._debug:
@@ -1987,17 +2030,26 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         return instance
 
-    def _ReadInstanceHierarchy(self, file_object, root_node_offset):
+    def _ReadInstanceHierarchy(
+        self, file_object, root_node_offset, parent_node_offsets=()
+    ):
         """Reads an instance hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          parent_node_offsets (Optional[tuple[int]]): offsets of the parent root
+              nodes.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the hierarchy cannot be read.
         """
+        node_offsets = self._AppendNodeOffset(parent_node_offsets, root_node_offset)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2053,6 +2105,7 @@ class RepositoryFile(data_format.BinaryDataFile):
                         yield from self._ReadInstanceHierarchy(
                             file_object,
                             instance_leaf_value_node.instance_root_node_offset,
+                            parent_node_offsets=node_offsets,
                         )
 
         if self._debug:
@@ -2074,7 +2127,11 @@ class RepositoryFile(data_format.BinaryDataFile):
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-        self, file_object, root_node_offset, parent_namespace_segments
+        self,
+        file_object,
+        root_node_offset,
+        parent_namespace_segments,
+        parent_node_offsets=(),
     ):
         """Reads a namespace instance hierarchy.
 
@@ -2083,10 +2140,17 @@ class RepositoryFile(data_format.BinaryDataFile):
           root_node_offset (int): offset of the root node relative to the start of
               the file.
           parent_namespace_segments (list[str]): segments of the parent namespace.
+          parent_node_offsets (Optional[tuple[int]]): offsets of the parent root
+              nodes.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the hierarchy cannot be read.
         """
+        node_offsets = self._AppendNodeOffset(parent_node_offsets, root_node_offset)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2126,6 +2190,7 @@ class RepositoryFile(data_format.BinaryDataFile):
                                 file_object,
                                 instance_leaf_value_node.instance_root_node_offset,
                                 namespace_segments,
+                                parent_node_offsets=node_offsets,
                             )
 
     def ReadClassDefinitions(self):
-- 
2.43.0


From f1ec3ed0d253275d3d466af2f44736263313e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:10 +0000
Subject: [PATCH 168/181] fix: debug output of an instance branch node of a CIM
 repository file raises TypeError

---
 dtformats/wmi_repository.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.debug.yaml b/dtformats/wmi_repository.debug.yaml
index 77296c3..b87582a 100644
--- a/dtformats/wmi_repository.debug.yaml
+++ b/dtformats/wmi_repository.debug.yaml
@@ -310,7 +310,7 @@ attributes:
   format: custom:offset
 - name: unknown1
   description: "Unknown1"
-  format: binary_data
+  format: decimal
 - name: instance_leaf_node_offset
   description: "Instance leaf node offset"
   format: custom:offset
-- 
2.43.0


From 22640d1e1114fd12808a7eb4c6d4f746d21a62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 169/181] fix: NSSet of a NSKeyedArchiver plist yields only its
 last element

---
 scripts/decode_nskeyedarchiver_plist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 409a083..9df18e5 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -190,7 +190,7 @@ class NSKeyedArchiverDecoder:
 
             decoded_list.append(decoded_element)
 
-        return decoded_element
+        return decoded_list
 
     def _DecodeNSURL(self, encoded_object, objects_list):
         """Decodes a NSURL.
-- 
2.43.0


From e8391cf526f3d0c2caa2e2f47a9ee72f3a380b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 170/181] fix: object of a NSKeyedArchiver plist loses values
 that are 0, false or empty

---
 scripts/decode_nskeyedarchiver_plist.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 9df18e5..92f32d0 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -57,10 +57,9 @@ class NSKeyedArchiverDecoder:
                 continue
 
             encoded_value = encoded_object.get(key)
-            if encoded_value:
-                decoded_value = self._DecodeObject(encoded_value, objects_list)
+            decoded_value = self._DecodeObject(encoded_value, objects_list)
 
-                decoded_dict[key] = decoded_value
+            decoded_dict[key] = decoded_value
 
         return decoded_dict
 
@@ -81,10 +80,9 @@ class NSKeyedArchiverDecoder:
                 continue
 
             encoded_value = encoded_object.get(key)
-            if encoded_value:
-                decoded_value = self._DecodeObject(encoded_value, objects_list)
+            decoded_value = self._DecodeObject(encoded_value, objects_list)
 
-                decoded_dict[key] = decoded_value
+            decoded_dict[key] = decoded_value
 
         return decoded_dict
 
-- 
2.43.0


From 4b9c66996f46ae0da3e35c1c62fb9672f2a8ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 171/181] fix: reference outside of the objects of a
 NSKeyedArchiver plist raises IndexError or is another object

---
 scripts/decode_nskeyedarchiver_plist.py | 26 +++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 92f32d0..9307b89 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -157,7 +157,7 @@ class NSKeyedArchiverDecoder:
                 f"Unsupported encoded object $1 type: {encoded_object_type!s}"
             )
 
-        referenced_object = objects_list[plist_uid]
+        referenced_object = self._GetReferencedObject(plist_uid, objects_list)
 
         # TODO: what about value $0? It seems to indicate the number of elements
         # in the hash table.
@@ -182,7 +182,7 @@ class NSKeyedArchiverDecoder:
 
         for value_object in encoded_object["NS.objects"]:
             plist_uid = self._GetPlistUID(value_object)
-            referenced_object = objects_list[plist_uid]
+            referenced_object = self._GetReferencedObject(plist_uid, objects_list)
 
             decoded_element = self._DecodeContainer(referenced_object, objects_list)
 
@@ -251,7 +251,7 @@ class NSKeyedArchiverDecoder:
 
         plist_uid = self._GetPlistUID(encoded_object)
         if plist_uid is not None:
-            referenced_object = objects_list[plist_uid]
+            referenced_object = self._GetReferencedObject(plist_uid, objects_list)
             return self._DecodeObject(referenced_object, objects_list)
 
         if encoded_object is None or isinstance(encoded_object, (bool, int, float)):
@@ -312,6 +312,24 @@ class NSKeyedArchiverDecoder:
 
         return None
 
+    def _GetReferencedObject(self, plist_uid, objects_list):
+        """Retrieves the object a plist UID references.
+
+        Args:
+          plist_uid (int): plist UID.
+          objects_list (list[object]): $objects list.
+
+        Returns:
+          object: encoded object.
+
+        Raises:
+          RuntimeError: if there is no such object.
+        """
+        if not isinstance(plist_uid, int) or not 0 <= plist_uid < len(objects_list):
+            raise RuntimeError(f"Missing object with UID: {plist_uid!s}")
+
+        return objects_list[plist_uid]
+
     def DecodePlistFile(self, path):
         """Decodes a NSKeyedArchiver encoded plist file.
 
@@ -336,7 +354,7 @@ class NSKeyedArchiverDecoder:
         for name, value in encoded_plist.get("$top", {}).items():
             plist_uid = self._GetPlistUID(value)
             if plist_uid is not None:
-                encoded_object = objects_list[plist_uid]
+                encoded_object = self._GetReferencedObject(plist_uid, objects_list)
 
                 value = self._DecodeObject(encoded_object, objects_list)
 
-- 
2.43.0


From 890d7a31b2bdc711b015dd79394d4d8b4f044ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 172/181] fix: element of a NSSet or NSHashTable that is not a
 dictionary raises AttributeError

---
 scripts/decode_nskeyedarchiver_plist.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 9307b89..6f09472 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -73,6 +73,9 @@ class NSKeyedArchiverDecoder:
         Returns:
           object: decoded object.
         """
+        if not isinstance(encoded_object, dict):
+            return self._DecodeObject(encoded_object, objects_list)
+
         decoded_dict = {}
 
         for key in encoded_object:
@@ -182,6 +185,12 @@ class NSKeyedArchiverDecoder:
 
         for value_object in encoded_object["NS.objects"]:
             plist_uid = self._GetPlistUID(value_object)
+            if plist_uid is None:
+                encoded_object_type = type(value_object)
+                raise RuntimeError(
+                    f"Unsupported encoded object type: {encoded_object_type!s}"
+                )
+
             referenced_object = self._GetReferencedObject(plist_uid, objects_list)
 
             decoded_element = self._DecodeContainer(referenced_object, objects_list)
-- 
2.43.0


From 6b18b019a61f7eee234138304de1c4907806b62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 173/181] fix: class of a NSKeyedArchiver object without a
 class name raises AttributeError or TypeError

---
 scripts/decode_nskeyedarchiver_plist.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 6f09472..12fcb11 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -281,10 +281,16 @@ class NSKeyedArchiverDecoder:
                 return encoded_object
 
             decoded_class = self._DecodeObject(encoded_class, objects_list)
+            if not isinstance(decoded_class, dict):
+                raise RuntimeError("Unsupported $class")
+
             class_name = decoded_class.get("$classname")
             if not class_name:
                 return encoded_object
 
+            if not isinstance(class_name, str):
+                raise RuntimeError("Unsupported $classname")
+
             callback_method = self._CALLBACKS.get(class_name)
             if not callback_method:
                 raise RuntimeError(f"Missing callback for class: {class_name:s}")
-- 
2.43.0


From 99cab3ef4beb1cf69219035346f088ff2a5285c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 174/181] fix: key of a NSDictionary that is a list or
 dictionary raises TypeError

---
 scripts/decode_nskeyedarchiver_plist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 12fcb11..6bb947e 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -130,6 +130,8 @@ class NSKeyedArchiverDecoder:
 
         for index, encoded_key in enumerate(ns_keys):
             decoded_key = self._DecodeObject(encoded_key, objects_list)
+            if isinstance(decoded_key, (dict, list)):
+                raise RuntimeError("Unsupported NS.keys")
 
             encoded_value = ns_objects[index]
             decoded_value = self._DecodeObject(encoded_value, objects_list)
-- 
2.43.0


From ebaa9b3adbb16a37ddb4d7c468749f576adcda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 175/181] fix: NSURL or NSUUID of another type than string or
 data raises TypeError

---
 scripts/decode_nskeyedarchiver_plist.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 6bb947e..73bdb3a 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -220,6 +220,11 @@ class NSKeyedArchiverDecoder:
             encoded_object["NS.relative"], objects_list
         )
 
+        if not isinstance(decoded_base or "", str) or not isinstance(
+            decoded_relative, str
+        ):
+            raise RuntimeError("Unsupported NS.base or NS.relative")
+
         if decoded_base:
             decoded_url = "/".join([decoded_base, decoded_relative])
         else:
@@ -242,7 +247,7 @@ class NSKeyedArchiverDecoder:
             raise RuntimeError("Missing NS.uuidbytes")
 
         ns_uuidbytes = encoded_object["NS.uuidbytes"]
-        if len(ns_uuidbytes) != 16:
+        if not isinstance(ns_uuidbytes, bytes) or len(ns_uuidbytes) != 16:
             raise RuntimeError("Unsupported NS.uuidbytes size")
 
         return str(uuid.UUID(bytes=ns_uuidbytes))
-- 
2.43.0


From d6ee2b0ba7e301e767ac09701a4336da9ff934d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 176/181] fix: NSArray, NSDictionary or NSSet of which the
 objects are not a list raises TypeError

---
 scripts/decode_nskeyedarchiver_plist.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 73bdb3a..bf5f790 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -102,6 +102,9 @@ class NSKeyedArchiverDecoder:
         if "NS.objects" not in encoded_object:
             raise RuntimeError("Missing NS.objects")
 
+        if not isinstance(encoded_object["NS.objects"], list):
+            raise RuntimeError("Unsupported NS.objects")
+
         return [
             self._DecodeObject(element, objects_list)
             for element in encoded_object["NS.objects"]
@@ -123,6 +126,9 @@ class NSKeyedArchiverDecoder:
         ns_keys = encoded_object["NS.keys"]
         ns_objects = encoded_object["NS.objects"]
 
+        if not isinstance(ns_keys, list) or not isinstance(ns_objects, list):
+            raise RuntimeError("Unsupported NS.keys or NS.objects")
+
         if len(ns_keys) != len(ns_objects):
             raise RuntimeError("Mismatch between number of NS.keys and NS.objects")
 
@@ -183,6 +189,9 @@ class NSKeyedArchiverDecoder:
         if "NS.objects" not in encoded_object:
             raise RuntimeError("Missing NS.objects")
 
+        if not isinstance(encoded_object["NS.objects"], list):
+            raise RuntimeError("Unsupported NS.objects")
+
         decoded_list = []
 
         for value_object in encoded_object["NS.objects"]:
-- 
2.43.0


From 72fdf64db9922ebf69935071d2ce7ea0b136bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:58 +0000
Subject: [PATCH 177/181] fix: AMCache file reference key names with several
 separators or none

---
 dtformats/amcache.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index c7b3c00..1040a3f 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -1,5 +1,7 @@
 """Windows AMCache (AMCache.hve) files."""
 
+import re
+
 import pyregf
 
 from dtformats import data_format
@@ -34,6 +36,11 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         "101": "SHA-1",
     }
 
+    # The sequence number and MFT entry have no leading zeros.
+    _FILE_REFERENCE_REGEX = re.compile(
+        r"([1-9a-f][0-9a-f]{0,3})0000([1-9a-f][0-9a-f]{0,11}|0)", re.IGNORECASE
+    )
+
     _PROGRAM_KEY_DESCRIPTIONS = {
         "0": "Name",
         "1": "Version",
@@ -146,10 +153,10 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
           file_reference_key (pyregf_key): file reference key.
         """
         if self._debug:
-            if "0000" in file_reference_key.name:
-                sequence_number, mft_entry = file_reference_key.name.split("0000")
-                mft_entry = int(mft_entry, 16)
-                sequence_number = int(sequence_number, 16)
+            match = self._FILE_REFERENCE_REGEX.fullmatch(file_reference_key.name)
+            if match:
+                sequence_number = int(match.group(1), 16)
+                mft_entry = int(match.group(2), 16)
                 self._DebugPrintText(
                     (
                         f"File: {file_reference_key.name:s} "
-- 
2.43.0


From 11fbc41762d5cd1fea79be098678e207a3a5fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:58 +0000
Subject: [PATCH 178/181] fix: AMCache values with another type than their name
 tells

---
 dtformats/amcache.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index 1040a3f..bef981d 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -173,14 +173,14 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-                if value.name == "d":
+                if value.name == "d" and isinstance(value_data, int):
                     major_version = value_data >> 16
                     minor_version = value_data & 0xFFFF
                     value_data = f"{major_version:d}.{minor_version:d}"
 
-                if value.name == "f":
+                if value.name == "f" and isinstance(value_data, int):
                     self._DebugPrintPosixTimeValue(description, value_data)
-                elif value.name in ("11", "12", "17"):
+                elif value.name in ("11", "12", "17") and isinstance(value_data, int):
                     self._DebugPrintFiletimeValue(description, value_data)
                 else:
                     self._DebugPrintValue(description, value_data)
@@ -220,11 +220,11 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-                if value.name in ("7", "d", "Files"):
+                if value.name in ("7", "d", "Files") and isinstance(value_data, list):
                     for string_value in value_data:
                         self._DebugPrintValue(description, string_value)
                         description = ""
-                elif value.name in ("a", "b"):
+                elif value.name in ("a", "b") and isinstance(value_data, int):
                     self._DebugPrintPosixTimeValue(description, value_data)
                 else:
                     self._DebugPrintValue(description, value_data)
-- 
2.43.0


From a566abfe39e7ac3f14a6011cbe2eb45ce8936aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:58 +0000
Subject: [PATCH 179/181] fix: AMCache default values, which have no name

---
 dtformats/amcache.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index bef981d..849412c 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -61,6 +61,18 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         ]
     )
 
+    def _GetValueDescription(self, value, descriptions):
+        """Retrieves the description of a value.
+
+        Args:
+          value (pyregf_value): value.
+          descriptions (dict[str, str]): descriptions per value name.
+
+        Returns:
+          str: description, where the default value has no name.
+        """
+        return descriptions.get(value.name, value.name or "(default)")
+
     def _GetValueDataAsObject(self, value):
         """Retrieves the value data as an object.
 
@@ -89,7 +101,7 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         except (OSError, OverflowError) as exception:
             raise errors.ParseError(
                 (
-                    f"Unable to read data from value: {value.name:s} with error: "
+                    f"Unable to read data from value: {value.name!s} with error: "
                     f"{exception!s}"
                 )
             )
@@ -106,8 +118,8 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Application File: {application_file_key.name:s}\n")
 
         for value in application_file_key.values:
-            description = self._APPLICATION_FILE_KEY_DESCRIPTIONS.get(
-                value.name, value.name
+            description = self._GetValueDescription(
+                value, self._APPLICATION_FILE_KEY_DESCRIPTIONS
             )
             value_data = self._GetValueDataAsObject(value)
 
@@ -127,7 +139,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Application: {application_key.name:s}\n")
 
         for value in application_key.values:
-            description = self._APPLICATION_KEY_DESCRIPTIONS.get(value.name, value.name)
+            description = self._GetValueDescription(
+                value, self._APPLICATION_KEY_DESCRIPTIONS
+            )
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
@@ -167,8 +181,8 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
                 self._DebugPrintText(f"File: {file_reference_key.name:s}\n")
 
         for value in file_reference_key.values:
-            description = self._FILE_REFERENCE_KEY_DESCRIPTIONS.get(
-                value.name, value.name
+            description = self._GetValueDescription(
+                value, self._FILE_REFERENCE_KEY_DESCRIPTIONS
             )
             value_data = self._GetValueDataAsObject(value)
 
@@ -216,7 +230,9 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             self._DebugPrintText(f"Program: {program_key.name:s}\n")
 
         for value in program_key.values:
-            description = self._PROGRAM_KEY_DESCRIPTIONS.get(value.name, value.name)
+            description = self._GetValueDescription(
+                value, self._PROGRAM_KEY_DESCRIPTIONS
+            )
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-- 
2.43.0


From d1693fbb115f641f89cf53e2732e11f535d8b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:58 +0000
Subject: [PATCH 180/181] fix: AMCache files that cannot be read raise
 ParseError

---
 dtformats/amcache.py | 60 ++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index 849412c..47aec41 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -266,32 +266,38 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
-        regf_file = pyregf.file()
-        regf_file.open_file_object(file_object)
-
-        root_key = regf_file.get_root_key()
-        root_key_name = root_key.get_name()
-        if root_key_name.lower() not in self._ROOT_KEY_NAMES:
-            return
-
-        root_key = regf_file.get_key_by_path("\\Root")
-        if root_key:
-            file_key = root_key.get_sub_key_by_path("File")
-            if file_key:
-                self._ReadFileKey(file_key)
-
-            programs_key = root_key.get_sub_key_by_path("Programs")
-            if programs_key:
-                self._ReadProgramsKey(programs_key)
-
-            inventory_application_key = root_key.get_sub_key_by_path(
-                "InventoryApplication"
-            )
-            if inventory_application_key:
-                self._ReadInventoryApplicationKey(inventory_application_key)
+        try:
+            regf_file = pyregf.file()
+            regf_file.open_file_object(file_object)
+
+            root_key = regf_file.get_root_key()
+            root_key_name = root_key.get_name()
+            if root_key_name.lower() not in self._ROOT_KEY_NAMES:
+                return
+
+            root_key = regf_file.get_key_by_path("\\Root")
+            if root_key:
+                file_key = root_key.get_sub_key_by_path("File")
+                if file_key:
+                    self._ReadFileKey(file_key)
+
+                programs_key = root_key.get_sub_key_by_path("Programs")
+                if programs_key:
+                    self._ReadProgramsKey(programs_key)
+
+                inventory_application_key = root_key.get_sub_key_by_path(
+                    "InventoryApplication"
+                )
+                if inventory_application_key:
+                    self._ReadInventoryApplicationKey(inventory_application_key)
 
-            inventory_application_file_key = root_key.get_sub_key_by_path(
-                "InventoryApplicationFile"
+                inventory_application_file_key = root_key.get_sub_key_by_path(
+                    "InventoryApplicationFile"
+                )
+                if inventory_application_file_key:
+                    self._ReadInventoryApplicationFileKey(inventory_application_file_key)
+
+        except OSError as exception:
+            raise errors.ParseError(
+                f"Unable to read Windows Registry file with error: {exception!s}"
             )
-            if inventory_application_file_key:
-                self._ReadInventoryApplicationFileKey(inventory_application_file_key)
-- 
2.43.0


From 9ed6d7f7b90cbe409f6da7c44ce559a288da837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:13 +0000
Subject: [PATCH 181/181] fix: AMCache integers of the upper half of their
 range are not negative

---
 dtformats/amcache.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index 47aec41..42c284c 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -89,8 +89,12 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             if value.type in (1, 2, 6):
                 value_data = value.get_data_as_string()
 
-            elif value.type in (4, 5, 11):
-                value_data = value.get_data_as_integer()
+            elif value.type in (4, 5):
+                # Note that pyregf provides a signed integer.
+                value_data = value.get_data_as_integer() & 0xFFFFFFFF
+
+            elif value.type == 11:
+                value_data = value.get_data_as_integer() & 0xFFFFFFFFFFFFFFFF
 
             elif value.type == 7:
                 value_data = list(value.get_data_as_multi_string())
-- 
2.43.0

