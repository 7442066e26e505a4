From 56d93f24c13b84fbba14510e01b625dd2e3f3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 01/24] fix: check every buffer access and report it with an
 exception

The bounds check was noexcept (so it terminated the process), overflowed for
huge offsets, and most accesses did not make it at all.
---
 src/buffer.hpp | 81 +++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 44 deletions(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index 0a6a9f6..acf2e5e 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -60,53 +60,46 @@ public:
   size_t size() const noexcept { return m_size; }
 
   bool check(const size_t _offset, const size_t _length) const noexcept {
-    return _offset + _length <= size();
+    return _offset <= size() && _length <= size() - _offset;
   }
 
-  void assert_check(const size_t _offset, const size_t _length) const noexcept {
+  void assert_check(const size_t _offset, const size_t _length) const {
     if (!check(_offset, _length))
       EXCEPTION::invalid_buffer_access(_offset, _length, size());
   }
 
-  template <ASSERT _assert = ASSERT::NO>
-  const uint8_t *data(const size_t _offset,
-                      [[maybe_unused]] const size_t _length) const noexcept {
-#ifdef DEBUG
-    assert_check(_offset, _length);
-#endif
+  // Every access is checked, unless the caller has already done it.
+  template <ASSERT _assert = ASSERT::YES>
+  const uint8_t *data(const size_t _offset, const size_t _length) const {
+    if constexpr (_assert == ASSERT::YES)
+      assert_check(_offset, _length);
     return m_buffer.get() + _offset;
   }
 
-  template <ASSERT _assert = ASSERT::NO>
-  uint8_t *data(const size_t _offset,
-                [[maybe_unused]] const size_t _length) noexcept {
-    if constexpr (_assert == ASSERT::YES) {
-      assert_check(_offset, _length);
-    } else {
-#ifdef DEBUG
+  template <ASSERT _assert = ASSERT::YES>
+  uint8_t *data(const size_t _offset, const size_t _length) {
+    if constexpr (_assert == ASSERT::YES)
       assert_check(_offset, _length);
-#endif
-    }
     return m_buffer.get() + _offset;
   }
 
-  uint8_t operator[](const size_t _offset) const noexcept {
+  uint8_t operator[](const size_t _offset) const {
     return *data(_offset, 1);
   }
 
-  void set(const size_t _offset, const uint8_t _v) noexcept {
+  void set(const size_t _offset, const uint8_t _v) {
     *data(_offset, 1) = _v;
   };
   void set(const size_t _offset, const uint8_t _v,
-           const size_t _length) noexcept {
+           const size_t _length) {
     std::memset(data(_offset, _length), _v, _length);
   };
   void copy(const size_t _offset_dest, const size_t _offset_src,
-            const size_t _length) noexcept {
+            const size_t _length) {
     std::memcpy(data(_offset_dest, _length), data(_offset_src, _length),
                 _length);
   }
-  void copy(const size_t _offset, const BYTES &_src) noexcept {
+  void copy(const size_t _offset, const BYTES &_src) {
     const size_t length = _src.size();
     std::memcpy(data(_offset, length), _src.data(), length);
   }
@@ -124,57 +117,57 @@ public:
   explicit EBUFFER(const size_t _size) : MBUFFER(_size) {}
   EBUFFER(MBUFFER &&_buffer) : MBUFFER(std::move(_buffer)) {}
 
-  template <ASSERT _assert = ASSERT::NO>
-  uint8_t get_byte(const size_t _offset) const noexcept {
+  template <ASSERT _assert = ASSERT::YES>
+  uint8_t get_byte(const size_t _offset) const {
     return *(this->template data<_assert>(_offset, 1));
   }
 
-  template <ASSERT _assert = ASSERT::NO>
-  BYTES get_bytes(const size_t _offset, const size_t _length) const noexcept {
+  template <ASSERT _assert = ASSERT::YES>
+  BYTES get_bytes(const size_t _offset, const size_t _length) const {
     return INTERNAL::get_bytes(this->template data<_assert>(_offset, _length),
                                _length);
   }
 
-  template <ASSERT _assert = ASSERT::NO>
-  int16_t get_int16(const size_t _offset) const noexcept {
+  template <ASSERT _assert = ASSERT::YES>
+  int16_t get_int16(const size_t _offset) const {
     return INTERNAL::get_val<_endian, int16_t>(
         this->template data<_assert>(_offset, sizeof(int16_t)));
   }
 
-  template <ASSERT _assert = ASSERT::NO>
-  uint16_t get_uint16(const size_t _offset) const noexcept {
+  template <ASSERT _assert = ASSERT::YES>
+  uint16_t get_uint16(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uint16_t>(
         this->template data<_assert>(_offset, sizeof(uint16_t)));
   }
 
-  template <ASSERT _assert = ASSERT::NO>
-  int32_t get_int32(const size_t _offset) const noexcept {
+  template <ASSERT _assert = ASSERT::YES>
+  int32_t get_int32(const size_t _offset) const {
     return INTERNAL::get_val<_endian, int32_t>(
         this->template data<_assert>(_offset, sizeof(int32_t)));
   }
 
-  template <ASSERT _assert = ASSERT::NO>
-  uint32_t get_uint32(const size_t _offset) const noexcept {
+  template <ASSERT _assert = ASSERT::YES>
+  uint32_t get_uint32(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uint32_t>(
         this->template data<_assert>(_offset, sizeof(uint32_t)));
   }
 
-  template <ASSERT _assert = ASSERT::NO>
-  double get_double(const size_t _offset) const noexcept {
+  template <ASSERT _assert = ASSERT::YES>
+  double get_double(const size_t _offset) const {
     return INTERNAL::get_double<_endian>(
         this->template data<_assert>(_offset, sizeof(double)));
   }
 
-  template <ASSERT _assert = ASSERT::NO>
+  template <ASSERT _assert = ASSERT::YES>
   std::string_view get_string(const size_t _offset,
-                              const size_t _length) const noexcept {
+                              const size_t _length) const {
     return INTERNAL::get_string_trim(
         this->template data<_assert>(_offset, _length), _length);
   }
 
-  template <ASSERT _assert = ASSERT::NO>
+  template <ASSERT _assert = ASSERT::YES>
   std::string_view get_string_untrim(const size_t _offset,
-                                     const size_t _length) const noexcept {
+                                     const size_t _length) const {
     return INTERNAL::get_string(this->template data<_assert>(_offset, _length),
                                 _length);
   }
@@ -194,14 +187,14 @@ public:
   explicit BUFFER(const size_t _size) : EBUFFER<_endian>(_size) {}
   BUFFER(MBUFFER &&_buffer) : EBUFFER<_endian>(std::move(_buffer)) {}
 
-  template <ASSERT _assert = ASSERT::NO>
-  integer_t get_integer(const size_t _offset) const noexcept {
+  template <ASSERT _assert = ASSERT::YES>
+  integer_t get_integer(const size_t _offset) const {
     return INTERNAL::get_val<_endian, integer_t>(
         this->template data<_assert>(_offset, sizeof(integer_t)));
   }
 
-  template <ASSERT _assert = ASSERT::NO>
-  uinteger_t get_uinteger(const size_t _offset) const noexcept {
+  template <ASSERT _assert = ASSERT::YES>
+  uinteger_t get_uinteger(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uinteger_t>(
         this->template data<_assert>(_offset, sizeof(uinteger_t)));
   }
-- 
2.43.0


From 611a088aa32a77999ce0fa6d306fbab44a87dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 02/24] fix: let malformed metadata subheaders raise instead of
 terminate

---
 src/metadata.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index dbffda0..02f891a 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -218,7 +218,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void
   process_ROW_SIZE_SUBHEADER([[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-                             Properties::Metadata *_metadata) const noexcept {
+                             Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_ROW_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     buf.assert_check(_subheader.offset + lcp_offset, 4);
@@ -243,7 +243,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_SIZE_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) const noexcept {
+      Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     _metadata->column_count = buf.template get_uinteger<ASSERT::YES>(
@@ -266,7 +266,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_TEXT_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) noexcept {
+      Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_TEXT_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t length =
@@ -324,7 +324,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_NAME_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t offset_max =
@@ -344,7 +344,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_ATTRIBUTES_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -366,7 +366,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_FORMAT_AND_LABEL_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_FORMAT_AND_LABEL_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-- 
2.43.0


From 66e089efd9b6283978245a296ad59f8a550e8938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 03/24] fix: no column entries in a name or attributes
 subheader too short for one

---
 src/metadata.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 02f891a..6904651 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -327,6 +327,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
+    if (_subheader.length < 12 + integer_size)
+      return; // Too short for any entry
     const size_t offset_max =
         _subheader.offset + _subheader.length - 12 - integer_size;
     for (size_t offset = _subheader.offset + integer_size + 8;
@@ -348,6 +350,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
+    if (_subheader.length < 12 + integer_size)
+      return; // Too short for any entry
     const size_t offset_max =
         _subheader.offset + _subheader.length - 12 - integer_size;
     for (size_t offset = _subheader.offset + integer_size + 8;
-- 
2.43.0


From 8c8772008d122ed39a65fe8a706be2a911d886c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 04/24] fix: do not take compressed rows for metadata

A compressed row on a metadata page whose first bytes look like a signature
was parsed as a metadata subheader, and the signature of a row shorter than
it was read past the end of the row.
---
 src/metadata.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 6904651..969e90b 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -161,6 +161,16 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   bool process_subheader(const PAGE_SUBHEADER &_subheader,
                          Properties::Metadata *_metadata) {
+    // A compressed row has no signature, and a subheader shorter than the
+    // signature cannot have one.
+    if (_subheader.compression == COMPRESSED_SUBHEADER_ID ||
+        _subheader.length < integer_size) {
+      if (!DataSubHeader::check(_metadata, _subheader))
+        return false;
+      process_DATA_SUBHEADER(_subheader);
+      return true;
+    }
+
     // Match the subheader signature to the correct processing function
     const auto subheader_signature =
         buf.get_bytes(_subheader.offset, integer_size);
-- 
2.43.0


From fa6b71bc36b3f37d4181c99c41842169761d3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 05/24] fix: refuse a header length shorter than the header

---
 src/header.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/header.hpp b/src/header.hpp
index 94cb3ef..534ffe3 100644
--- a/src/header.hpp
+++ b/src/header.hpp
@@ -92,8 +92,8 @@ struct READ_HEADER {
     }*/
 
     // Read the rest of the header
-    FMT_ASSERT(_header->header_length >= HEADER_CONSTANTS::HEADER_SIZE,
-               "Header is too big in set_header_length_and_read");
+    if (_header->header_length < HEADER_CONSTANTS::HEADER_SIZE)
+      EXCEPTION::header_too_short();
     if (!buf.read_stream(is,
                          _header->header_length - HEADER_CONSTANTS::HEADER_SIZE,
                          HEADER_CONSTANTS::HEADER_SIZE))
@@ -103,8 +103,8 @@ struct READ_HEADER {
   }
 
   void set_header(Properties::Header *_header) const {
-    FMT_ASSERT(buf.size() >= 288 + total_align,
-               "Buffer is too small in set_header");
+    if (buf.size() < 288 + total_align)
+      EXCEPTION::header_too_short();
 
     _header->platform = (buf[39] == '1' ? Platform::unix
                                         : buf[39] == '2' ? Platform::windows
-- 
2.43.0


From 55b102646e6a7d43e16d93fe5af72e1163c4571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 06/24] fix: skip pages that hold no row instead of delivering
 one from them

Rows reaching outside their page raise an exception.
---
 src/data.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index d381427..94bf089 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -188,8 +188,6 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
   BYTES extract_row_values(const size_t _offset, const size_t _length) const {
     D(spdlog::info("READ_DATA::extract_row_values({}, {})\n", _offset,
                    _length));
-    FMT_ASSERT(_offset + _length <= header->page_length,
-               "Accessing data outside the page");
     const auto values = buf.get_bytes(_offset, _length);
     if (_length < metadata->row_length) {
       return decompressor(values);
@@ -235,7 +233,8 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
     while (true) {
       if (!read_page())
         return false;
-      if (build_page())
+      // A page without any row is skipped
+      if (build_page() && !page->next())
         return true;
     }
   }
-- 
2.43.0


From 53ea886ebf299bb53f91261bb990908947193eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 07/24] fix: do not read past the end of a truncated compressed
 row

---
 src/decompressors.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index a7d1502..3fbf4aa 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -25,7 +25,13 @@ struct SRC_VALUES {
   explicit SRC_VALUES(const BYTES &_values)
       : values(_values), n_src(values.size()) {}
 
-  auto pop() noexcept { return values[i_src++]; }
+  auto pop() {
+    if (!check(1)) {
+      spdlog::critical("Invalid src length: {}+1>{}\n", i_src, n_src);
+      EXCEPTION::cannot_decompress();
+    }
+    return values[i_src++];
+  }
   auto pop(const size_t _n) noexcept {
     auto v = values.substr(i_src, _n);
     i_src += _n;
-- 
2.43.0


From 7546475faeb56e7eb86e2b6a3035acbefb61125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 08/24] fix: decode the last command of an RLE row when it is
 one byte long

A one byte command at the end of a SASYZCRL row was dropped and its output
replaced by zeroes.
---
 src/decompressors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index 3fbf4aa..f59b1a9 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -210,7 +210,7 @@ struct RLE : public DST_VALUES<_endian, _format> {
       i_dst += n;
     };
 
-    while (src.check(2) && check()) {
+    while (src.check(1) && check()) {
       const auto val = src.pop();
       const uint8_t command = static_cast<uint8_t>(val >> FOUR);
       const size_t end_of_first_byte = static_cast<size_t>(val & 0x0F);
-- 
2.43.0


From b8e20043249a5f9e3d590b8823bff4ea2aa6ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 09/24] fix: RDC patterns that overlap their copy or start
 before the row

---
 src/decompressors.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index f59b1a9..ff548ec 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -103,8 +103,13 @@ struct RDC : public DST_VALUES<_endian, _format> {
 
   void store_pattern(const size_t _offset, const size_t _n) {
     assert_check(_n);
-    buf.copy(i_dst, i_dst - _offset, _n);
-    i_dst += _n;
+    if (_offset > i_dst) {
+      spdlog::critical("Invalid pattern offset: {}>{}\n", _offset, i_dst);
+      EXCEPTION::cannot_decompress();
+    }
+    // Byte after byte: the pattern may overlap its own copy
+    for (size_t i = 0; i < _n; ++i, ++i_dst)
+      buf.set(i_dst, buf[i_dst - _offset]);
   }
 
   BYTES operator()(const BYTES &_values) {
-- 
2.43.0


From 612b6e0148fc007d09d279759b7405f9933e87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 10/24] fix: decode date, datetime and time columns narrower
 than 8 bytes

They were read as 8 bytes whatever their width, picking up the bytes of the
next column.  A width that no number can have is an unknown column type, also
with a date format.
---
 src/formatters.hpp | 15 ++++++++++++++-
 src/metadata.hpp   |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 4833586..ef3b2cc 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -109,7 +109,20 @@ template <Endian _endian> struct DoubleFormatter : public IFormatter {
   }
 
   NUMBER get_number([[maybe_unused]] const void *_p) const noexcept {
-    return INTERNAL::get_double<_endian>(data(_p));
+    switch (length) {
+    case 3:
+      return INTERNAL::get_incomplete_double<_endian, 3>(data(_p));
+    case 4:
+      return INTERNAL::get_incomplete_double<_endian, 4>(data(_p));
+    case 5:
+      return INTERNAL::get_incomplete_double<_endian, 5>(data(_p));
+    case 6:
+      return INTERNAL::get_incomplete_double<_endian, 6>(data(_p));
+    case 7:
+      return INTERNAL::get_incomplete_double<_endian, 7>(data(_p));
+    default:
+      return INTERNAL::get_double<_endian>(data(_p));
+    }
   }
 
   STRING to_string(const void *_p) const {
diff --git a/src/metadata.hpp b/src/metadata.hpp
index 969e90b..781204e 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -473,6 +473,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
         else if (column_length == 2)
           add_column(FORMATTER::IntegerFormatter<_endian, int16_t>(
               column_offset, column_length));
+        else if (column_length < 3 || column_length > 8)
+          add_column(FORMATTER::NoFormatter(column_offset, column_length));
         else if (is_datetime_format(column_format))
           add_column(FORMATTER::DateTimeFormatter<_endian>(column_offset,
                                                            column_length));
-- 
2.43.0


From ecba39c25c14c6f5586e80977f179bef0621d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 11/24] fix: refuse columns that reach beyond the end of the
 row

---
 src/metadata.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 781204e..8dc2eac 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -448,6 +448,11 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto column_length =
           get_value("data_length", column_data_lengths, icol);
       const auto column_type = get_value("data_type", column_data_types, icol);
+      // The cells must lie within the row
+      if (column_offset > _metadata->row_length ||
+          column_length > _metadata->row_length - column_offset)
+        EXCEPTION::invalid_buffer_access(column_offset, column_length,
+                                         _metadata->row_length);
 
       bool column_type_not_supported = true;
       auto add_column = [&](auto &&formatter) {
-- 
2.43.0


From 8118fe3ff0eb8d0dc712f08387cda5b217669682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 12/24] fix: dates out of the supported years are not-a-date

Their conversion overflowed, or raised an exception from noexcept functions
and so terminated the process.
---
 src/types.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/types.hpp b/src/types.hpp
index 5d39160..a9cc5cd 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -140,10 +140,19 @@ inline double get_incomplete_double(const uint8_t *_buf) noexcept {
   return get_double<_endian>(buf);
 }
 
+/// boost cannot tell the date of anything else
+inline DATETIME in_supported_years(const DATETIME &_x) noexcept {
+  using namespace boost::posix_time;
+  if (_x < ptime(min_date_time) || _x > ptime(max_date_time))
+    return not_a_date_time;
+  return _x;
+}
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_seconds))
+  // Missing, or way beyond the supported years
+  if (!(std::abs(_seconds) < 1e12))
     return not_a_date_time;
   ptime start(boost::gregorian::date(1960, 1, 1));
   // Increase accuracy by splitting in days/seconds/microseconds
@@ -152,8 +161,9 @@ inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   _seconds -= _days * seconds_in_a_day;
   const auto _secs = std::round(_seconds);
   const auto _microseconds = std::round((_seconds - _secs) * 1e6);
-  return start + days(std::lround(_days)) + seconds(std::lround(_secs)) +
-         microseconds(std::lround(_microseconds));
+  return in_supported_years(start + days(std::lround(_days)) +
+                            seconds(std::lround(_secs)) +
+                            microseconds(std::lround(_microseconds)));
 }
 
 inline TIME get_time_from_epoch(const double _seconds) noexcept {
@@ -167,10 +177,11 @@ inline DATE get_date_from_epoch_seconds(const double _seconds) noexcept {
 inline DATE get_date_from_epoch_days(const double _days) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_days))
+  // Missing, or way beyond the supported years
+  if (!(std::abs(_days) < 1e7))
     return DATE(not_a_date_time);
   ptime start(boost::gregorian::date(1960, 1, 1));
-  return (start + days(std::lround(_days))).date();
+  return in_supported_years(start + days(std::lround(_days))).date();
 }
 
 inline DATE get_date_from_epoch(const double _t) noexcept {
-- 
2.43.0


From c79ddb9f64f262c8f78a9bd9d200ebf6fac97686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 13/24] fix: the text of a missing date, datetime or time cell
 is empty

It raised an exception, or was the text of an arbitrary time.
---
 src/formatters.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index ef3b2cc..68ef318 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -167,8 +167,11 @@ struct DateTimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_datetime(
-        _p)); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
+    const auto x = get_datetime(_p);
+    if (x.is_special())
+      return {};
+    return cppsas7bdat::to_string(
+        x); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
   }
 };
 
@@ -191,8 +194,11 @@ struct DateFormatter : public DoubleFormatter<_endian> {
   TIME get_time([[maybe_unused]] const void *_p) const noexcept { return {}; }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_date(
-        _p)); // boost::gregorian::to_iso_extended_string(get_date(_p));
+    const auto x = get_date(_p);
+    if (x.is_special())
+      return {};
+    return cppsas7bdat::to_string(
+        x); // boost::gregorian::to_iso_extended_string(get_date(_p));
   }
 };
 
@@ -213,8 +219,11 @@ struct TimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
+    const auto x = get_time(_p);
+    if (x.is_special())
+      return {};
     return cppsas7bdat::to_string(
-        get_time(_p)); // boost::posix_time::to_simple_string(get_time(_p));
+        x); // boost::posix_time::to_simple_string(get_time(_p));
   }
 };
 
-- 
2.43.0


From dfcb6373b24a3cb49dd5320a5c684ac53d57921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 14/24] fix: text of times longer than 16 characters

The text of times beyond 999 hours was read past the end of its buffer.
---
 src/types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.cpp b/src/types.cpp
index b77f595..a2fd666 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -42,7 +42,7 @@ std::string to_string(DATE _x) {
 }
 
 std::string to_string(TIME _x) {
-  char szBuffer[16];
+  char szBuffer[48];
   size_t size{0};
   if (_x.fractional_seconds()) {
     auto r = fmt::format_to_n(
-- 
2.43.0


From 70534fe11a1291e6d8320196387d6e40ba9978c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 15/24] fix: column names are not format strings in the print
 sink

---
 include/cppsas7bdat/sink/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/print.hpp b/include/cppsas7bdat/sink/print.hpp
index 41f861d..5f13c7f 100644
--- a/include/cppsas7bdat/sink/print.hpp
+++ b/include/cppsas7bdat/sink/print.hpp
@@ -67,7 +67,7 @@ struct print {
     fmt::print(os, "#");
     for (const auto &column : columns) {
       fmt::print(os, ",");
-      fmt::print(os, column.name);
+      fmt::print(os, "{}", column.name);
     }
     fmt::print(os, "\n");
   }
-- 
2.43.0


From 3ef0f168e6094b74c3a86567df2a21a0cce93e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 16/24] fix: double the quotes inside quoted CSV fields

---
 include/cppsas7bdat/sink/csv.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 91dfc2b..c6da617 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -71,7 +71,16 @@ struct csv {
 
   void end_of_data() const noexcept {}
 
-  void print(const SV &_x) { fmt::print(os, "\"{}\"", _x); }
+  void print(const SV &_x) {
+    // Embedded quotes are doubled
+    fmt::print(os, "\"");
+    SV x{_x};
+    for (auto i = x.find('"'); i != x.npos; i = x.find('"')) {
+      fmt::print(os, "{}\"", x.substr(0, i + 1));
+      x.remove_prefix(i + 1);
+    }
+    fmt::print(os, "{}\"", x);
+  }
   void print(const NUMBER _x) {
     if (!std::isnan(_x))
       fmt::print(os, "{}", _x);
-- 
2.43.0


From 24a6304df61026e4c8bb6110725a79b62814a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 17/24] fix: a moved CSV file sink writes to its own stream

It kept writing to the stream of the object it was moved from.
---
 include/cppsas7bdat/sink/csv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index c6da617..7b38f39 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -100,6 +100,11 @@ struct _ofstream {
 struct csv_ofstream : public _ofstream, public csv {
   explicit csv_ofstream(const char *_pcszfilename)
       : _ofstream(_pcszfilename), csv(ofs) {}
+  // The stream moves along
+  csv_ofstream(csv_ofstream &&_rhs) noexcept
+      : _ofstream(std::move(_rhs)), csv(ofs) {
+    columns = std::move(_rhs.columns);
+  }
 };
 
 } // namespace detail
-- 
2.43.0


From e066ba42f078435a982899ca45f0146bfdc56c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 18/24] fix: the csv command must not overwrite its input file

The table was written to the input file itself.
---
 apps/cppsas7bdat-ci.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index edb0dce..e672dfc 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -42,11 +42,14 @@ void process_print(const std::string& _filename, long _n)
 
 std::string get_csv_filename(const std::string& _filename)
 {
-  auto ipos = _filename.rfind('.');
-  if(ipos != _filename.npos) {
-    return _filename.substr(0, ipos+1) + "csv";
+  const auto idir = _filename.find_last_of("/\\");
+  const auto ipos = _filename.rfind('.');
+  // Only a dot in the name of the file itself starts the extension
+  if(ipos != _filename.npos && (idir == _filename.npos || ipos > idir)) {
+    const auto csv_filename = _filename.substr(0, ipos+1) + "csv";
+    if(csv_filename != _filename) return csv_filename;
   }
-  return _filename + "csv";
+  return _filename + ".csv";
 }
 
 void process_csv(const std::string& _filename)
@@ -54,7 +57,7 @@ void process_csv(const std::string& _filename)
   const auto csv_filename = get_csv_filename(_filename);
   //std::ofstream csv_os(csv_filename.c_str());
   //cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_os));
-  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(_filename.c_str()));
+  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_filename.c_str()));
   reader.read_all();
 }
 
-- 
2.43.0


From 99913c047dcee48d78441b67927e9d0dbb915eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 19/24] fix: R sinks by columns hand over vectors of their own

The vectors handed over were reused for the next rows, and an early flush
shrunk the row index for good, so that later rows were written past its end.
---
 R/CPPSAS7BDAT/src/sink_by_columns.hpp | 20 ++++++++------------
 R/CPPSAS7BDAT/src/sink_chunk.hpp      |  2 +-
 R/CPPSAS7BDAT/src/sink_data.hpp       |  2 +-
 3 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink_by_columns.hpp b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
index 4b44bb4..514dce4 100644
--- a/R/CPPSAS7BDAT/src/sink_by_columns.hpp
+++ b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
@@ -165,18 +165,16 @@ protected:
   void set_values() {
     size_t icol = {0};
 
+    // R keeps what it gets, and a C++ assignment does not copy a vector: hand
+    // over copies, and keep the vectors as they are for the next rows.
     auto set_values = [&](const auto &_columns) {
-      for (const auto &column : _columns) {
-        if (idata != column.size()) {
-          rows[icol++] = resize_vector(column, idata);
-        } else {
-          rows[icol++] = column;
-        }
-      }
+      for (const auto &column : _columns)
+        rows[icol++] = resize_vector(column, idata);
     };
 
-    if (row_index.size() != idata)
-      row_index = resize_vector(row_index, idata);
+    rows = Rcpp::List(col_names.size());
+    rows.names() = col_names;
+    rows_index = resize_vector(row_index, idata);
     set_values(col_numbers);
     set_values(col_integers);
     set_values(col_datetimes);
@@ -197,14 +195,12 @@ protected:
     add_col_name(columns.dates);
     add_col_name(columns.times);
     add_col_name(columns.strings);
-
-    rows = Rcpp::List(col_names.size());
-    rows.names() = col_names;
   }
 
   cppsas7bdat::Columns columns;
   Rcpp::StringVector col_names;
   Rcpp::List rows;
+  COL_INTEGERS rows_index;
 };
 
 } // namespace Rcppsas7bdat
diff --git a/R/CPPSAS7BDAT/src/sink_chunk.hpp b/R/CPPSAS7BDAT/src/sink_chunk.hpp
index e61652c..2f63ca2 100644
--- a/R/CPPSAS7BDAT/src/sink_chunk.hpp
+++ b/R/CPPSAS7BDAT/src/sink_chunk.hpp
@@ -39,7 +39,7 @@ struct SinkChunk : public SinkByColumns {
     if (istartrow > iendrow || idata == 0)
       return;
     SinkByColumns::set_values();
-    f_push_rows(row_index, rows);
+    f_push_rows(rows_index, rows);
     idata = 0;
     istartrow = iendrow + 1;
   }
diff --git a/R/CPPSAS7BDAT/src/sink_data.hpp b/R/CPPSAS7BDAT/src/sink_data.hpp
index f33b6ad..cb88849 100644
--- a/R/CPPSAS7BDAT/src/sink_data.hpp
+++ b/R/CPPSAS7BDAT/src/sink_data.hpp
@@ -23,7 +23,7 @@ struct SinkData : public SinkByColumns {
     if (idata == 0)
       return;
     SinkByColumns::set_values();
-    f_set_data(row_index, rows);
+    f_set_data(rows_index, rows);
   }
 
 protected:
-- 
2.43.0


From b02579df1bf7abadba279d2a1ac654dfa5b70f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 20/24] fix: missing numbers are NA in R sinks by columns, as
 in sinks by row

---
 R/CPPSAS7BDAT/src/sink_by_columns.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/R/CPPSAS7BDAT/src/sink_by_columns.hpp b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
index 514dce4..381c954 100644
--- a/R/CPPSAS7BDAT/src/sink_by_columns.hpp
+++ b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
@@ -72,7 +72,10 @@ struct SinkByColumns : public SinkBase {
 
   static void push_value(COL_NUMBERS &_values, const size_t _idata,
                          const cppsas7bdat::NUMBER _x) {
-    _values[_idata] = _x;
+    if (std::isnan(_x))
+      _values[_idata] = NA_REAL;
+    else
+      _values[_idata] = _x;
   }
 
   static void push_value(COL_INTEGERS &_values, const size_t _idata,
-- 
2.43.0


From 2aa07d6f099bf274b4c964f3fd4a889010b7b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 21/24] fix: the R row sink hands over a list of its own for
 every row

---
 R/CPPSAS7BDAT/src/sink.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink.hpp b/R/CPPSAS7BDAT/src/sink.hpp
index 8e17e2e..4cb1e10 100644
--- a/R/CPPSAS7BDAT/src/sink.hpp
+++ b/R/CPPSAS7BDAT/src/sink.hpp
@@ -62,6 +62,9 @@ struct Sink : public SinkBase {
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     const size_t ncols = columns.size();
+    // A new list: R may keep the previous one
+    row = Rcpp::List(ncols);
+    row.names() = col_names;
     for (size_t icol = 0; icol < ncols; ++icol) {
       const auto &column = columns[icol];
       switch (column.type) {
@@ -97,8 +100,6 @@ protected:
     for (size_t icol = 0; icol < ncols; ++icol) {
       col_names[icol] = columns[icol].name;
     }
-    row = Rcpp::List(ncols);
-    row.names() = col_names;
   }
 
   cppsas7bdat::COLUMNS columns;
-- 
2.43.0


From 50c571c257780dc847fb316d930c59fd0ee4f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 22/24] fix: the Python sinks may reach the end of the data
 more than once

Removing the missing _cpp attribute left an error behind.
---
 python/pycppsas7bdat/cpp/sink.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 2782f5d..c2909fd 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -41,11 +41,14 @@ struct SinkBase : public boost::noncopyable {
   void set_cpp_attr() {
     // std::cerr << "SinkBase:: set_cpp_attr(" << this << ")" << std::endl;
     boost::python::object value(boost::ref(*this));
-    PyObject *po = boost::python::incref(value.ptr());
-    PyObject_SetAttrString(self, "_cpp", po);
+    PyObject_SetAttrString(self, "_cpp", value.ptr());
   }
 
-  void del_cpp_attr() { PyObject_DelAttrString(self, "_cpp"); }
+  void del_cpp_attr() {
+    // The end of data may be reached more than once
+    if (PyObject_HasAttrString(self, "_cpp"))
+      PyObject_DelAttrString(self, "_cpp");
+  }
 
   void set_properties([
       [maybe_unused]] const cppsas7bdat::Properties &_properties) {
-- 
2.43.0


From 3a055dabdc21595086950b389b0ff29b72558105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 23/24] fix: start row of Python chunks that follow skipped
 rows

---
 python/pycppsas7bdat/cpp/sink.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index c2909fd..3510698 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -265,6 +265,8 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
+    if (!idata)
+      istartrow = _irow;
     iendrow = _irow;
     ++idata;
     if (idata == size)
-- 
2.43.0


From caa366bd011339fcc9018aa2d884d21e69af00a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:57 +0000
Subject: [PATCH 24/24] fix: missing dates and times own their reference to
 None in Python

---
 python/pycppsas7bdat/cpp/import_datetime.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/import_datetime.cpp b/python/pycppsas7bdat/cpp/import_datetime.cpp
index 85b55f4..92dec8f 100644
--- a/python/pycppsas7bdat/cpp/import_datetime.cpp
+++ b/python/pycppsas7bdat/cpp/import_datetime.cpp
@@ -34,7 +34,7 @@ static long get_usecs(boost::posix_time::time_duration const &d) {
 struct ptime_to_python_datetime {
   static PyObject *convert(boost::posix_time::ptime const &pt) {
     if (pt.is_not_a_date_time())
-      return Py_None;
+      return boost::python::incref(Py_None);
     const boost::gregorian::date date = pt.date();
     const boost::posix_time::time_duration td = pt.time_of_day();
     return PyDateTime_FromDateAndTime((int)date.year(), (int)date.month(),
@@ -88,7 +88,7 @@ struct ptime_from_python_datetime {
 struct tduration_to_python_delta {
   static PyObject *convert(boost::posix_time::time_duration d) {
     if (d.is_not_a_date_time())
-      return Py_None;
+      return boost::python::incref(Py_None);
     long hours = d.hours();
     long days = hours / 24;
     if (days == 0) {
@@ -154,7 +154,7 @@ struct tduration_from_python_delta {
 struct gregorian_date_to_python_date {
   static PyObject *convert(boost::gregorian::date const &date) {
     if (date.is_not_a_date())
-      return Py_None;
+      return boost::python::incref(Py_None);
     return PyDate_FromDate((int)date.year(), (int)date.month(),
                            (int)date.day());
   }
-- 
2.43.0

