From 92dacad0a6757cb5eacc6d41a33d75e55b57a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 01/32] fix: iterate the full 64-bit number of key
 transformation rounds

---
 src/key.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index 2156608..0287861 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -124,7 +124,7 @@ std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
   AesCipher cipher(seed);
 
   std::array<uint8_t, 32> transformed_key = key_.Resolve(resolution);
-  for (uint32_t i = 0; i < rounds; ++i)
+  for (uint64_t i = 0; i < rounds; ++i)
     transformed_key = encrypt_ecb(transformed_key, cipher);
 
   SHA256_CTX sha256;
-- 
2.43.0


From e3646a8d0c1fea5a652bfe6b88a129f97cd25e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 02/32] fix: forget deeper groups when the KDB group level
 drops

---
 src/kdb.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 3a5a7fb..4f44a77 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -618,8 +618,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
       last_group_by_level[group_level - 1]->AddGroup(group);
       last_group_by_level.push_back(group);
     } else {
+      last_group_by_level.resize(group_level);
       last_group_by_level[group_level - 1]->AddGroup(group);
-      last_group_by_level[group_level] = group;
+      last_group_by_level.push_back(group);
     }
 
     last_group_level = group_level;
-- 
2.43.0


From b1c6c75f753a1c36c370b5ff775cf8e8cd12a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 03/32] fix: do not wrap around the KDB group level 65535

---
 src/kdb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 4f44a77..7f55922 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -599,7 +599,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-  uint16_t last_group_level = 0;
+  uint32_t last_group_level = 0;
 
   std::vector<std::shared_ptr<Group>> last_group_by_level;
   last_group_by_level.push_back(group_root);
@@ -609,7 +609,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
     // Level of current group plus one, because we have inserted the root at
     // level zero.
-    uint16_t group_level = std::get<1>(group_data) + 1;
+    uint32_t group_level = std::get<1>(group_data) + 1;
 
     if (group_level > last_group_level) {
       if (group_level != last_group_level + 1)
-- 
2.43.0


From 7426e520eff7000e82931168f3e9664cc5c7d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 04/32] fix: compare vector sizes and null pointers in
 indirect_equal()

---
 src/util.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util.hh b/src/util.hh
index 7fb2c4f..e2822d7 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -51,8 +51,12 @@ inline T clamp(T min, T max, T val) {
 template <typename T>
 inline bool indirect_equal(const std::vector<T>& v0,
                            const std::vector<T>& v1) {
-  return std::equal(v0.begin(), v0.end(), v1.begin(),
+  return v0.size() == v1.size() &&
+      std::equal(v0.begin(), v0.end(), v1.begin(),
       [](const T& v0, const T& v1) {
+        if (!v0 || !v1)
+          return !v0 && !v1;
+
         return *v0 == *v1;
       });
 }
-- 
2.43.0


From f4f6afa2ceb25c77e671886bf98d300d8892d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 05/32] fix: keep the auto-type obfuscation value when setting
 it

---
 src/entry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.hh b/src/entry.hh
index 938adba..1b8d9b1 100644
--- a/src/entry.hh
+++ b/src/entry.hh
@@ -87,7 +87,7 @@ class Entry final {
     void set_enabled(bool enabled) { enabled_ = enabled; }
 
     uint32_t obfuscation() const { return obfuscation_; }
-    void set_obfuscation(bool obfuscation) { obfuscation_ = obfuscation; }
+    void set_obfuscation(uint32_t obfuscation) { obfuscation_ = obfuscation; }
 
     const std::string& sequence() const { return sequence_; }
     void set_sequence(const std::string& sequence) { sequence_ = sequence; }
-- 
2.43.0


From 8aa1c0aa48e303a8e857450d31922c40da97294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 06/32] fix: reject the first unknown KDBX compression method

---
 src/kdbx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 043390e..ad1bac4 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -981,7 +981,7 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
         break;
       case KdbxHeaderField::kCompressionFlags: {
         uint32_t comp_flags = consume<uint32_t>(field);
-        if (comp_flags > static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
+        if (comp_flags >= static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
           throw FormatError("Unknown compression method in KDBX.");
         db->set_compress(comp_flags ==
             static_cast<uint32_t>(kKdbxCompressionFlags::kGzip));
-- 
2.43.0


From de9bdb5cae8c736b069d41a2201648099f53099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 07/32] fix: reject PKCS #7 padding of length zero

---
 src/cipher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher.cc b/src/cipher.cc
index ee0f8bc..1d55b72 100644
--- a/src/cipher.cc
+++ b/src/cipher.cc
@@ -192,7 +192,7 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
     if (last) {
       // Handle PKCS #7 padding for the last block.
       uint32_t pad_len = dst[15];
-      if (pad_len > 16)
+      if (pad_len == 0 || pad_len > 16)
         throw IoError("Decryption error.");
 
       for (std::size_t i = 16 - pad_len; i < 16; ++i) {
-- 
2.43.0


From 4ee036f73bed1706ae9d59bf29fe14518d7a4494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 08/32] fix: initialize all Metadata time stamps

---
 src/metadata.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hh b/src/metadata.hh
index 5c8d0f0..778f8be 100644
--- a/src/metadata.hh
+++ b/src/metadata.hh
@@ -101,9 +101,9 @@ class Metadata final {
   int64_t master_key_change_force_ = -1;
   MemoryProtection memory_protection_;
   std::shared_ptr<Group> recycle_bin_;
-  std::time_t recycle_bin_changed_;
+  std::time_t recycle_bin_changed_ = 0;
   std::shared_ptr<Group> entry_templates_;
-  std::time_t entry_templates_changed_;
+  std::time_t entry_templates_changed_ = 0;
   int32_t history_max_items_ = -1;
   int64_t history_max_size_ = -1;
   std::weak_ptr<Group> last_selected_group_;
-- 
2.43.0


From 3a0c00e2b52494a75ac50a570ed12ca700a2fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 09/32] fix: report truncated streams in hashed_istreambuf

---
 src/stream.cc | 14 +++++++++++++-
 src/stream.hh |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/stream.cc b/src/stream.cc
index 23ca7c6..a874ea0 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -42,8 +42,13 @@ int hashed_istreambuf::underflow() {
   static constexpr std::array<uint8_t, 32> kEmptyHash = { { 0 } };
 
   if (gptr() == egptr()) {
+    if (end_of_stream_)
+      return std::char_traits<char>::eof();
+
     BlockHeader header;
     src_.read(reinterpret_cast<char*>(&header), sizeof(BlockHeader));
+    if (!src_.good())
+      throw IoError("Missing block header.");
 
     if (header.block_index != block_index_)
       throw IoError("Block index mismatch.");
@@ -52,12 +57,19 @@ int hashed_istreambuf::underflow() {
     block_.clear();
     std::generate_n(std::back_inserter(block_),
                     header.block_size,
-                    [&]() { return src_.get(); });
+                    [&]() {
+      int c = src_.get();
+      if (!src_.good())
+        throw IoError("Truncated block.");
+
+      return c;
+    });
 
     if (header.block_size == 0) {
       if (header.block_hash != kEmptyHash)
         throw IoError("Corrupt EOS block.");
 
+      end_of_stream_ = true;
       return std::char_traits<char>::eof();
     }
 
diff --git a/src/stream.hh b/src/stream.hh
index 86496df..7451d7e 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -115,6 +115,7 @@ class hashed_istreambuf final :
     public std::basic_streambuf<char, std::char_traits<char>> {
  private:
   std::istream& src_;
+  bool end_of_stream_ = false;
 
 public:
   hashed_istreambuf(std::istream& src)
-- 
2.43.0


From a8f36c85cdf5bb09a007c5de4254115e34f55aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 10/32] fix: report truncated gzip streams and survive empty
 inflate output

---
 src/stream.cc | 24 ++++++++++++------------
 src/stream.hh |  1 +
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index a874ea0..74fb390 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -153,19 +153,16 @@ gzip_istreambuf::~gzip_istreambuf() {
 }
 
 int gzip_istreambuf::underflow() {
-  if (gptr() == egptr()) {
-    // Check if we need to feed the z-stream more input data.
-    if (z_stream_.avail_in == 0) {
-      if (!src_.good())
-        return std::char_traits<char>::eof();
+  while (gptr() == egptr()) {
+    if (end_of_stream_)
+      return std::char_traits<char>::eof();
 
+    // Check if we need to feed the z-stream more input data.
+    if (z_stream_.avail_in == 0 && src_.good()) {
       src_.read(input_.data(), input_.size());
 
       z_stream_.avail_in = src_.gcount();
       z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
-
-      if (z_stream_.avail_in < 1)
-        return std::char_traits<char>::eof();
     }
 
     z_stream_.avail_out = output_.size();
@@ -173,17 +170,20 @@ int gzip_istreambuf::underflow() {
 
     int res = inflate(&z_stream_, Z_NO_FLUSH);
     assert(res != Z_STREAM_ERROR);
-    if (res < 0) {
+    if (res < 0 && (res != Z_BUF_ERROR || z_stream_.avail_in != 0)) {
       throw IoError(Format() << "Gzip inflation error (" << res << ").");
     }
 
     std::size_t output_bytes = output_.size() - z_stream_.avail_out;
+    if (res == Z_STREAM_END)
+      end_of_stream_ = true;
+    else if (output_bytes == 0 && z_stream_.avail_in == 0 && !src_.good())
+      throw IoError("Truncated gzip stream.");
+
     setg(output_.data(), output_.data(), output_.data() + output_bytes);
   }
 
-  return gptr() == egptr() ?
-      std::char_traits<char>::eof() :
-      std::char_traits<char>::to_int_type(*gptr());
+  return std::char_traits<char>::to_int_type(*gptr());
 }
 
 gzip_ostreambuf::gzip_ostreambuf(std::ostream& dst) :
diff --git a/src/stream.hh b/src/stream.hh
index 7451d7e..37161b0 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -152,6 +152,7 @@ class gzip_istreambuf final :
 
   std::istream& src_;
   z_stream z_stream_;
+  bool end_of_stream_ = false;
 
   /** Input buffer for feeding the decompressor. */
   std::array<char, kBufferSize> input_ = { { 0 } };
-- 
2.43.0


From fe57178a95ef7268d0b5efb55015b4992c1a3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 11/32] fix: report write errors when exporting databases

---
 src/kdb.cc  |  4 ++++
 src/kdbx.cc | 12 +++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 7f55922..600bf35 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -754,6 +754,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Encrypt the content.
   encrypt_cbc(content, dst, *cipher);
+
+  dst.flush();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
diff --git a/src/kdbx.cc b/src/kdbx.cc
index ad1bac4..a04df34 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1198,9 +1198,7 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Final(header_hash_.data(), &sha256);
 
   // Write header to file.
-  std::copy(std::istreambuf_iterator<char>(header_stream),
-            std::istreambuf_iterator<char>(),
-            std::ostreambuf_iterator<char>(dst));
+  dst.write(header_data.data(), header_data.size());
 
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
@@ -1225,14 +1223,22 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
     WriteXml(gzip_stream, obfuscator, db);
     gzip_stream.flush();
+    if (!gzip_stream.good())
+      throw IoError("Write error.");
   } else {
     WriteXml(hashed_stream, obfuscator, db);
   }
 
   hashed_stream.flush();
+  if (!hashed_stream.good())
+    throw IoError("Write error.");
 
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
+
+  dst.flush();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
-- 
2.43.0


From 5833a7c50d660d355229141a0e64adc18f5f9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 12/32] fix: refuse to export more transformation rounds than
 KDB can store

---
 src/kdb.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 600bf35..7ca52fd 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -649,6 +649,11 @@ void KdbFile::Export(const std::string& path, const Database& db,
   std::copy(db.master_seed().begin(), db.master_seed().end(),
             master_seed.begin());
 
+  if (db.transform_rounds() >
+      std::numeric_limits<decltype(KdbHeader::transform_rounds)>::max()) {
+    throw InternalError("Transformation round count exceeds KDB maximum.");
+  }
+
   std::ofstream dst(path, std::ios::out | std::ios::binary);
   if (!dst.is_open())
     throw IoError("Unable to open database for writing.");
-- 
2.43.0


From 3941a63d395b17212613bf765c07d14256d6d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 13/32] fix: write the KDB never time for times that never
 expire

---
 src/kdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 7ca52fd..83bda2e 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -76,7 +76,7 @@ struct KdbTime {
     static constexpr std::array<uint8_t, 5> kNeverTimeConstant = {
       0x2e, 0xdf, 0x39, 0x7e, 0xfb
     };
-    if (time == -1) {
+    if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
       std::tm* time_ptr = std::localtime(&time);
-- 
2.43.0


From e0bb682264b7c4bf2825a0a2c7cdb347984cfbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 14/32] fix: reject malformed KDB time stamps instead of
 aborting

---
 src/kdb.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 83bda2e..0e82c8b 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -115,12 +115,10 @@ struct KdbTime {
     if (packed == kNeverTimeConstant)
       return 0;
 
-    assert(second <= 60);
-    assert(minute <= 59);
-    assert(hour <= 23);
-    assert(day >= 1 && day <= 31);
-    assert(month >= 1 && month <= 12);
-    assert(year >= 1900);
+    if (second > 60 || minute > 59 || hour > 23 || day < 1 || day > 31 ||
+        month < 1 || month > 12 || year < 1900) {
+      throw FormatError("Malformed time stamp in KDB.");
+    }
 
     std::tm time;
     time.tm_sec = second;
@@ -134,10 +132,8 @@ struct KdbTime {
     time.tm_isdst = -1;
 
     std::time_t res = std::mktime(&time);
-    if (res == -1) {
-      assert(false);
+    if (res == -1)
       return 0;
-    }
 
     return res;
   }
-- 
2.43.0


From f5b0dd5446a24f83213f1babc184df7fb18efdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 15/32] fix: stop reading a KDB field at the end of the stream

---
 src/kdb.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 0e82c8b..de7d9ac 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -189,7 +189,13 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
     std::stringstream field;
     std::generate_n(std::ostreambuf_iterator<char>(field),
                     field_size,
-                    [&src]() { return src.get(); });
+                    [&src]() {
+      int c = src.get();
+      if (!src.good())
+        throw IoError("Read error.");
+
+      return c;
+    });
     if (!src.good())
       throw IoError("Read error.");
 
@@ -300,7 +306,13 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
     std::stringstream field;
     std::generate_n(std::ostreambuf_iterator<char>(field),
                     field_size,
-                    [&src]() { return src.get(); });
+                    [&src]() {
+      int c = src.get();
+      if (!src.good())
+        throw IoError("Read error.");
+
+      return c;
+    });
     if (!src.good())
       throw IoError("Read error.");
 
-- 
2.43.0


From 5440aefdd3ceb43275c484dead537250054c4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 16/32] fix: reject duplicate KDB group identifiers instead of
 aborting

---
 src/kdb.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index de7d9ac..65baf7e 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -593,7 +593,8 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     std::shared_ptr<Group> group = ReadGroup(content, group_id, group_level);
 
     groups.push_back(std::make_tuple(group, group_level));
-    assert(group_map.count(group_id) == 0);
+    if (group_map.count(group_id) != 0)
+      throw FormatError("Duplicate group in KDB.");
     group_map[group_id] = group;
   }
 
-- 
2.43.0


From bfb718f9d7e9a84a72d11f15feb96db9394697fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 17/32] fix: give KDB attachments without data an empty binary

---
 src/kdb.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 65baf7e..344a0d8 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -388,8 +388,13 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
         }
         break;
       case KdbEntryFieldType::kEnd:
-        if (attachment)
+        if (attachment) {
+          if (!attachment->binary()) {
+            attachment->set_binary(std::make_shared<Binary>(
+                protect<std::string>(std::string(), false)));
+          }
           entry->AddAttachment(attachment);
+        }
         return entry;
       default:
         throw FormatError("Illegal entry field in KDB.");
-- 
2.43.0


From 1e93092d19ebdf6957f49d904046304079561bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 18/32] fix: read inline KDBX attachments from their value
 element

---
 src/kdbx.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index a04df34..bf1c427 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -562,23 +562,23 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       } else {
         protect<std::string> prot_val;
 
-        if (bin_node.attribute("Protected").as_bool()) {
+        if (val_node.attribute("Protected").as_bool()) {
           prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(bin_node.text().as_string())), true);
+              base64_decode(val_node.text().as_string())), true);
         } else {
-          if (bin_node.attribute("Compressed").as_bool()) {
+          if (val_node.attribute("Compressed").as_bool()) {
             std::stringstream raw_stream(
-                base64_decode(bin_node.text().as_string()));
+                base64_decode(val_node.text().as_string()));
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
             prot_val = protect<std::string>(
                 consume<std::string>(gzip_stream),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-                base64_decode(bin_node.text().as_string()),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                base64_decode(val_node.text().as_string()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           }
         }
 
-- 
2.43.0


From b00f2efec9cd944317acbe393458c7c1590c7e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 19/32] fix: read compressed KDBX binaries as binary data

---
 src/kdbx.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index bf1c427..83d2826 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -297,8 +297,10 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
           gzip_istreambuf gzip_streambuf(raw_stream);
           std::istream gzip_stream(&gzip_streambuf);
 
+          std::vector<char> raw_data =
+              consume<std::vector<char>>(gzip_stream);
           data = protect<std::string>(
-              consume<std::string>(gzip_stream),
+              std::string(raw_data.begin(), raw_data.end()),
               bin_node.attribute("ProtectedInMemory").as_bool());
         } else {
           data = protect<std::string>(
@@ -572,8 +574,10 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
+            std::vector<char> raw_data =
+                consume<std::vector<char>>(gzip_stream);
             prot_val = protect<std::string>(
-                consume<std::string>(gzip_stream),
+                std::string(raw_data.begin(), raw_data.end()),
                 val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-- 
2.43.0


From 9e193732eb36ce2cac045d8fa102ae3b6080fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 20/32] fix: keep the protection of inline KDBX attachments

---
 src/kdbx.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 83d2826..cb05df0 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -709,8 +709,15 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
     }
 
     if (!found_in_pool) {
-      bin_node.append_child("Value").text().set(base64_encode(
-          attachment->binary()->data()).c_str());
+      pugi::xml_node val_node = bin_node.append_child("Value");
+      if (attachment->binary()->data().is_protected()) {
+        val_node.append_attribute("Protected").set_value("True");
+        val_node.text().set(base64_encode(obfuscator.Process(
+            *attachment->binary()->data())).c_str());
+      } else {
+        val_node.text().set(base64_encode(
+            *attachment->binary()->data()).c_str());
+      }
     }
   }
 
-- 
2.43.0


From db51da7b23838b517b1aac36d6b495184c616c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 21/32] fix: give KDBX attachments without value an empty
 binary

---
 src/kdbx.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index cb05df0..39a2903 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -588,6 +588,9 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
 
         binary = std::make_shared<Binary>(prot_val);
       }
+    } else {
+      binary = std::make_shared<Binary>(
+          protect<std::string>(std::string(), false));
     }
 
     std::shared_ptr<Entry::Attachment> attachment =
-- 
2.43.0


From dc89893c840393d7b504b3c39b314ed7b9ad6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 22/32] fix: reject malformed KDBX time stamps instead of
 aborting

---
 src/kdbx.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 39a2903..a3fc033 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -142,15 +142,18 @@ std::time_t KdbxFile::ParseDateTime(const char* text) const {
   if (std::string(text) == "2999-12-28T22:59:59Z")
     return 0;
   
-  std::tm tm;
-  char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
-  if (res == nullptr) {
-    assert(false);
+  // Time stamps are optional.
+  if (*text == '\0')
     return 0;
-  }
+
+  std::tm tm = std::tm();
+  char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
+  if (res == nullptr)
+    throw FormatError("Malformed time stamp in KDBX.");
 
   // Format is expected to always be in UTC.
-  assert(*res == 'Z' || *res == '\0');
+  if (*res != 'Z' && *res != '\0')
+    throw FormatError("Malformed time stamp in KDBX.");
 
   return timegm(&tm);
 }
-- 
2.43.0


From f4845549992ceb9df7e4b95ca296f136b8342bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 23/32] fix: ignore dangling references in KDBX instead of
 aborting

---
 src/kdbx.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index a3fc033..206e0c5 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -326,10 +326,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         item_node = item_node.next_sibling("Item")) {
       std::string key = item_node.child_value("Key");
       std::string value = item_node.child_value("Value");
-      if (key.empty()) {
-        assert(false);
+      if (key.empty())
         continue;
-      }
 
       meta->AddField(key, value);
     }
@@ -484,8 +482,6 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
     auto it = icon_pool_.find(entry_node.child_value("CustomIconUUID"));
     if (it != icon_pool_.end()) {
       entry->set_custom_icon(it->second);
-    } else {
-      assert(false);
     }
   }
  
@@ -753,8 +749,6 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     auto icon = icon_pool_.find(group_node.child_value("CustomIconUUID"));
     if (icon != icon_pool_.end()) {
       group->set_custom_icon(icon->second);
-    } else {
-      assert(false);
     }
   }
 
@@ -886,15 +880,11 @@ void KdbxFile::ParseXml(std::istream& src,
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-  } else {
-    assert(false);
   }
 
   it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_visible_group(it->second);
-  } else {
-    assert(false);
   }
 }
 
-- 
2.43.0


From d71c31056fb304a9c1795e6b3cc94c0440adf4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 24/32] fix: resolve the last visible entry of a KDBX group on
 its own

---
 src/kdbx.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 206e0c5..75f2633 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -776,8 +776,9 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
   group->set_search(group_node.child("EnableSearching").text().as_bool());
 
+  std::array<uint8_t, 16> last_visible_uuid = { { 0 } };
   base64_decode(group_node.child_value("LastTopVisibleEntry"),
-                bounds_checked(uuid));
+                bounds_checked(last_visible_uuid));
 
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
@@ -785,8 +786,9 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
 
-    if (entry_uuid == uuid) {
-      assert(group->last_visible_entry().expired());
+    if (group_node.child("LastTopVisibleEntry") &&
+        entry_uuid == last_visible_uuid &&
+        group->last_visible_entry().expired()) {
       group->set_last_visible_entry(entry);
     }
   }
-- 
2.43.0


From 4b21fbb9bbbc4d84763c818a161da7a3c86dc6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 25/32] fix: allow exporting a KDBX database without entry
 templates group

---
 src/kdbx.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 75f2633..889a031 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -391,8 +391,6 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
     meta_node.append_child("EntryTemplatesGroup").text().set(base64_encode(
         meta->entry_templates()->uuid().begin(),
         meta->entry_templates()->uuid().end()).c_str());
-  } else {
-    assert(false);
   }
   meta_node.append_child("EntryTemplatesGroupChanged").text().set(
       WriteDateTime(meta->entry_templates_changed()).c_str());
-- 
2.43.0


From cc7463f4756af413d5cc37e6770475ddeb12b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 26/32] fix: do not use uninitialized bytes for short KDBX
 identifiers

---
 src/kdbx.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 889a031..d8712c4 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -127,7 +127,7 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   if (it != group_pool_.end())
     return it->second;
 
-  std::array<uint8_t, 16> uuid;
+  std::array<uint8_t, 16> uuid = { { 0 } };
   base64_decode(uuid_str, bounds_checked(uuid));
 
   std::shared_ptr<Group> group = std::make_shared<Group>();
@@ -270,7 +270,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
       if (data.empty())
         continue;
 
-      std::array<uint8_t, 16> uuid;
+      std::array<uint8_t, 16> uuid = { { 0 } };
       base64_decode(icon_node.child_value("UUID"), bounds_checked(uuid));
 
       std::shared_ptr<Icon> icon = std::make_shared<Icon>(uuid, data);
-- 
2.43.0


From 16c35d15597db00f3884b694a2ad2f1ceb1dad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 27/32] fix: refer to the parsed recycle bin and entry
 templates groups

---
 src/kdbx.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index d8712c4..8c01b54 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -240,15 +240,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->memory_protection().set_notes(
       mp_node.child("ProtectNotes").text().as_bool());
 
-  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
-    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
-  else
-    meta->set_recycle_bin(std::shared_ptr<Group>());
   meta->set_recycle_bin_changed(ParseDateTime(
       meta_node.child_value("RecycleBinChanged")));
 
-  meta->set_entry_templates(GetGroup(
-      meta_node.child_value("EntryTemplatesGroup")));
   meta->set_entry_templates_changed(ParseDateTime(
       meta_node.child_value("EntryTemplatesGroupChanged")));
 
@@ -257,9 +251,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->set_history_max_size(
       meta_node.child("HistoryMaxSize").text().as_llong(-1));
 
-  // Note that we're not parsing "LastSelectedGroup" and "LastTopVisibleGroup"
-  // here. They will be parsed later by ParseXml(). The reason is that we need
-  // to parse all groups first.
+  // Note that we're not parsing "RecycleBinUUID", "EntryTemplatesGroup",
+  // "LastSelectedGroup" and "LastTopVisibleGroup" here. They will be parsed
+  // later by ParseXml(). The reason is that we need to parse all groups first.
 
   pugi::xml_node icons_node = meta_node.child("CustomIcons");
   if (icons_node) {
@@ -877,6 +871,11 @@ void KdbxFile::ParseXml(std::istream& src,
   // When first parsing the meta data we haven't yet parsed all groups so we
   // have to wait until every group is parsed before parsing the final parts of
   // the meta data.
+  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
+    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
+  meta->set_entry_templates(GetGroup(
+      meta_node.child_value("EntryTemplatesGroup")));
+
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-- 
2.43.0


From 8be3c66b4c877c02d61f2ec07a71c18bcc976135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 28/32] fix: leave the key unchanged when reading a key file
 fails

---
 src/key.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 0287861..c9ea990 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -107,15 +107,18 @@ void Key::SetKeyFile(const std::string& path) {
   if (data.size() != 64)
     throw FormatError("Unknown key file format.");
 
-  for (std::size_t i = 0; i < key_.keyfile_key_.size(); ++i) {
+  std::array<uint8_t, 32> keyfile_key;
+  for (std::size_t i = 0; i < keyfile_key.size(); ++i) {
     char c[2] = { data[i * 2], data[i * 2 + 1] };
 
     if (!std::isxdigit(c[0]) || !std::isxdigit(c[1]))
       throw FormatError("Unknown key file format.");
 
     uint8_t v = std::stoi(std::string(c, 2), 0, 16);
-    key_.keyfile_key_[i] = v;
+    keyfile_key[i] = v;
   }
+
+  key_.keyfile_key_ = keyfile_key;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
-- 
2.43.0


From 12c1b791506529d5228061f832ab5466f8eb4794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 29/32] fix: do not ignore a key component that is all zero

---
 src/key.cc | 13 +++++++------
 src/key.hh |  2 ++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index c9ea990..d27c200 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -33,23 +33,21 @@ namespace keepass {
 
 std::array<uint8_t, 32> Key::CompositeKey::Resolve(
     SubKeyResolution resolution) const {
-  static const std::array<uint8_t, 32> kEmptyKey = { { 0 } };
-
   if (resolution == SubKeyResolution::kHashSubKeys) {
       std::array<uint8_t, 32> key;
 
       SHA256_CTX sha256;
       SHA256_Init(&sha256);
-      if (password_key_ != kEmptyKey)
+      if (has_password_)
           SHA256_Update(&sha256, password_key_.data(), password_key_.size());
-      if (keyfile_key_ != kEmptyKey)
+      if (has_keyfile_)
           SHA256_Update(&sha256, keyfile_key_.data(), keyfile_key_.size());
       SHA256_Final(key.data(), &sha256);
 
       return key;
   } else {
-    if (password_key_ != kEmptyKey) {
-      if (keyfile_key_ != kEmptyKey) {
+    if (has_password_) {
+      if (has_keyfile_) {
         std::array<uint8_t, 32> key;
 
         SHA256_CTX sha256;
@@ -78,6 +76,7 @@ void Key::SetPassword(const std::string& password) {
   SHA256_Update(&sha256, reinterpret_cast<const uint8_t*>(password.c_str()),
                 password.size());
   SHA256_Final(key_.password_key_.data(), &sha256);
+  key_.has_password_ = true;
 }
 
 void Key::SetKeyFile(const std::string& path) {
@@ -94,6 +93,7 @@ void Key::SetKeyFile(const std::string& path) {
       throw FormatError("Invalid key size in key file.");
 
     std::copy(key_str.begin(), key_str.end(), key_.keyfile_key_.begin());
+    key_.has_keyfile_ = true;
     return;
   }
 
@@ -119,6 +119,7 @@ void Key::SetKeyFile(const std::string& path) {
   }
 
   key_.keyfile_key_ = keyfile_key;
+  key_.has_keyfile_ = true;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
diff --git a/src/key.hh b/src/key.hh
index f85c2cf..0e8b551 100644
--- a/src/key.hh
+++ b/src/key.hh
@@ -45,6 +45,8 @@ class Key final {
   struct CompositeKey {
     std::array<uint8_t, 32> password_key_ = { { 0 } };
     std::array<uint8_t, 32> keyfile_key_ = { { 0 } };
+    bool has_password_ = false;
+    bool has_keyfile_ = false;
 
     std::array<uint8_t, 32> Resolve(SubKeyResolution resolution) const;
   } key_;
-- 
2.43.0


From bf76e57dcb079eff115e749bae157175ddf0c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 30/32] fix: return the previous position from
 bounds_checked_iterator++

---
 src/iterator.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iterator.hh b/src/iterator.hh
index 411c8c0..479ddba 100644
--- a/src/iterator.hh
+++ b/src/iterator.hh
@@ -59,8 +59,9 @@ class bounds_checked_iterator :
   }
 
   bounds_checked_iterator operator++(int) {
+    bounds_checked_iterator res = *this;
     ++first_;
-    return *this;
+    return res;
   }
 };
 
-- 
2.43.0


From f6424deb358624e91de11676cd18220e5d80ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 31/32] fix: do not accept empty input as validly padded CBC
 data

---
 src/cipher.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cipher.cc b/src/cipher.cc
index 1d55b72..67f72f7 100644
--- a/src/cipher.cc
+++ b/src/cipher.cc
@@ -175,6 +175,7 @@ void encrypt_cbc(std::istream& src, std::ostream& dst,
 
 void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher) {
   std::array<uint8_t, 16> prv = cipher.InitializationVector();
+  bool padded = false;
 
   block_transform<16>(src, dst, [&](const std::array<uint8_t, 16>& src,
                                     std::array<uint8_t, 16>& dst,
@@ -200,12 +201,17 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
           throw IoError("Decryption error.");
       }
 
+      padded = true;
       return 16 - pad_len;
     }
 
     prv = src;
     return 16;
   });
+
+  // There is always a padded block, even if there is nothing else.
+  if (!padded)
+    throw IoError("Decryption error.");
 }
 
 AesCipher::AesCipher(const std::array<uint8_t, 32>& key,
-- 
2.43.0


From 7430de770571a168f1def4347ee0bd3ebbabf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:33 +0000
Subject: [PATCH 32/32] fix: preserve carriage returns in KDBX texts

---
 src/kdbx.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 8c01b54..6d1f3a3 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -847,7 +847,9 @@ void KdbxFile::ParseXml(std::istream& src,
                         RandomObfuscator& obfuscator,
                         Database& db) {
   pugi::xml_document doc;
-  if (!doc.load(src, pugi::parse_default | pugi::parse_trim_pcdata))
+  // Texts may contain carriage returns, do not turn them into line feeds.
+  if (!doc.load(src, (pugi::parse_default & ~pugi::parse_eol) |
+                pugi::parse_trim_pcdata))
     throw FormatError("Malformed XML in KDBX.");
 
   pugi::xml_node kpf_node = doc.child("KeePassFile");
-- 
2.43.0

