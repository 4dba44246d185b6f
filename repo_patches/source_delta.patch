From f7bb86879e98e1ae661326adfabf85574d56a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 01/30] fix: keep checkpoint state unchanged when writing a
 checkpoint fails

soft_checkpoint_at and hard_checkpoint_at updated the in-memory checkpoint
state before performing I/O. If a write or sync threw, a retry silently did
nothing (the data was never made durable), and a later hard checkpoint
overwrote the last valid pair of checkpoint copies.
---
 src/joedb/journal/Writable_Journal.cpp | 31 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 8cc269d..7522bbb 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -118,19 +118,21 @@ namespace joedb
 
   JOEDB_DEBUG_ASSERT(file.get_size() < 0 || position <= file.get_size());
 
-  soft_index ^= 1;
-  checkpoint_position = position;
+  const int new_soft_index = soft_index ^ 1;
+  const int64_t neg = -position;
 
   Head_Exclusive_Lock lock(file);
 
-  const int64_t neg = -checkpoint_position;
-
   file.pwrite
   (
    reinterpret_cast<const char *>(&neg),
    sizeof(neg),
-   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + soft_index)
+   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + new_soft_index)
   );
+
+  // change state after success only, so that a failed checkpoint can be retried
+  soft_index = new_soft_index;
+  checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
@@ -142,28 +144,31 @@ namespace joedb
 
   file_buffer.flush();
 
-  hard_index ^= 1;
-  hard_checkpoint_position = checkpoint_position = position;
+  const int new_hard_index = hard_index ^ 1;
 
   Head_Exclusive_Lock lock(file);
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index)
   );
 
   file.sync();
 
   file.pwrite
   (
-   reinterpret_cast<const char *>(&checkpoint_position),
-   sizeof(checkpoint_position),
-   int64_t(sizeof(checkpoint_position)) * (2 * hard_index + 1)
+   reinterpret_cast<const char *>(&position),
+   sizeof(position),
+   int64_t(sizeof(position)) * (2 * new_hard_index + 1)
   );
 
   file.datasync();
+
+  // change state after success only, so that a failed checkpoint can be retried
+  hard_index = new_hard_index;
+  hard_checkpoint_position = checkpoint_position = position;
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From e0ce0c05b98a96715b88594e0ca7c6d16a744557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 02/30] fix: read file size after locking when opening a
 journal

The size was read before waiting for the lock, so another process could
create or extend a shared file in between: a stale size of 0 made the second
process overwrite the header. Also, do not keep the tail locked when an
exception is thrown while opening.
---
 .../journal/Journal_Construction_Lock.cpp     | 58 +++++++++++++++----
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index 76cd5bf..4e3c02f 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -3,15 +3,17 @@
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
- Journal_Construction_Lock::Journal_Construction_Lock
+ static void unlock_file(Abstract_File &file) noexcept
+ ////////////////////////////////////////////////////////////////////////////
+ {
+  file.unlock_head();
+  if (file.is_shared())
+   file.unlock_tail();
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ static int64_t lock_and_get_size(Abstract_File &file)
  ////////////////////////////////////////////////////////////////////////////
- (
-  Abstract_File &file,
-  Recovery recovery
- ):
-  file(file),
-  recovery(recovery),
-  size(file.get_size())
  {
   if (file.is_readonly())
    file.shared_lock_head();
@@ -19,16 +21,48 @@ namespace joedb
   {
    if (file.is_shared())
     file.exclusive_lock_tail();
-   file.exclusive_lock_head();
+
+   try
+   {
+    file.exclusive_lock_head();
+   }
+   catch (...)
+   {
+    if (file.is_shared())
+     file.unlock_tail();
+    throw;
+   }
+  }
+
+  // size must be read after locking: it may change while waiting for the lock
+  try
+  {
+   return file.get_size();
+  }
+  catch (...)
+  {
+   unlock_file(file);
+   throw;
   }
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ Journal_Construction_Lock::Journal_Construction_Lock
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  Abstract_File &file,
+  Recovery recovery
+ ):
+  file(file),
+  recovery(recovery),
+  size(lock_and_get_size(file))
+ {
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  Journal_Construction_Lock::~Journal_Construction_Lock()
  ////////////////////////////////////////////////////////////////////////////
  {
-  file.unlock_head();
-  if (file.is_shared())
-   file.unlock_tail();
+  unlock_file(file);
  }
 }
-- 
2.43.0


From 8a3e3aa9bd3e36231a77d52e3615d833e89a63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 03/30] fix: release the writer lock when pulling fails in
 lock_pull

---
 src/joedb/journal/Writable_Journal.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 7522bbb..5dcbb92 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -474,7 +474,16 @@ namespace joedb
   if (file.is_shared())
   {
    file.exclusive_lock_tail();
-   pull_without_locking();
+
+   try
+   {
+    pull_without_locking();
+   }
+   catch (...)
+   {
+    file.unlock_tail();
+    throw;
+   }
   }
  }
 
-- 
2.43.0


From 0cbe138d00c741bb429844402944244fe916fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 04/30] fix: continue comparing files at the right offset after
 a short read

---
 src/joedb/journal/Abstract_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Abstract_File.cpp b/src/joedb/journal/Abstract_File.cpp
index e28bb21..7f601e7 100644
--- a/src/joedb/journal/Abstract_File.cpp
+++ b/src/joedb/journal/Abstract_File.cpp
@@ -71,7 +71,7 @@ namespace joedb
     (
      destination_buffer.data() + n1,
      n0 - n1,
-     current
+     current + int64_t(n1)
     );
 
     if (n == 0)
-- 
2.43.0


From b5d5d726ace705bc476f0758ded9cad758d20b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 05/30] fix: hash all the data when a file returns short reads

---
 src/joedb/journal/File_Hasher.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index 9834517..4d6025f 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -6,6 +6,29 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static size_t read_block
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  const Abstract_File &file,
+  char *buffer,
+  size_t size,
+  int64_t offset
+ )
+ {
+  size_t total = 0;
+
+  while (total < size)
+  {
+   const size_t n = file.pread(buffer + total, size - total, offset + int64_t(total));
+   if (n == 0)
+    break;
+   total += n;
+  }
+
+  return total;
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  SHA_256::Hash File_Hasher::get_hash
  ////////////////////////////////////////////////////////////////////////////
@@ -28,7 +51,7 @@ namespace joedb
    if (current_size + int64_t(block_size) > size)
     block_size = size_t(size - current_size);
 
-   const size_t read_count = file.pread(hashing_buffer.data(), block_size, start + current_size);
+   const size_t read_count = read_block(file, hashing_buffer.data(), block_size, start + current_size);
    current_size += int64_t(read_count);
    const uint32_t full_chunks = uint32_t(read_count / SHA_256::chunk_size);
    for (uint32_t i = 0; i < full_chunks; i++)
@@ -98,7 +121,8 @@ namespace joedb
     );
    }
 
-   file.pread(buffer.data(), buffer.size(), buffer_position);
+   if (read_block(file, buffer.data(), buffer.size(), buffer_position) < buffer.size())
+    Abstract_File::reading_past_end_of_file();
 
    for (size_t j = 0; j < buffer.size(); j += SHA_256::chunk_size)
     sha_256.process_chunk(buffer.data() + j);
-- 
2.43.0


From f1bd185f98470f60c72ca212bc277ceb195217ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 06/30] fix: do not overflow the hashing buffer when the size
 is negative

---
 src/joedb/journal/File_Hasher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index 4d6025f..f0f06a1 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -48,7 +48,7 @@ namespace joedb
   while (true)
   {
    size_t block_size = SHA_256::chunk_size * chunks;
-   if (current_size + int64_t(block_size) > size)
+   if (size >= 0 && current_size + int64_t(block_size) > size)
     block_size = size_t(size - current_size);
 
    const size_t read_count = read_block(file, hashing_buffer.data(), block_size, start + current_size);
@@ -58,7 +58,7 @@ namespace joedb
     sha_256.process_chunk(&hashing_buffer[i * SHA_256::chunk_size]);
 
    const uint32_t remainder = uint32_t(read_count % SHA_256::chunk_size);
-   if (remainder || current_size >= size || read_count == 0)
+   if (remainder || (size >= 0 && current_size >= size) || read_count == 0)
    {
     sha_256.process_final_chunk
     (
-- 
2.43.0


From 8455680abcc4132bdb6b7082e5963ea9544bfc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 07/30] fix: return 0 when reading past the end of an encoded
 file

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 1846b22..5016f7a 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -14,7 +14,7 @@ namespace joedb
   const int64_t start = offset;
   const int64_t end = offset + int64_t(size);
 
-  int64_t global_end = 0;
+  int64_t global_end = start;
 
   for (auto b: db.get_buffer_table())
   {
-- 
2.43.0


From 5ab115c3298303dd0c8e5887815704b6a34e49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 08/30] fix: forget the decoded buffer of an encoded file
 before overwriting it

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 5016f7a..2222470 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -32,7 +32,10 @@ namespace joedb
 
     if (b != decoded_buffer)
     {
-     if (int64_t(read_buffer.size()) < db.get_size(b))
+     // a failed decoding must not leave a valid id with invalid data
+    decoded_buffer = db::encoded_file::id_of_buffer(Record_Id::null);
+
+    if (int64_t(read_buffer.size()) < db.get_size(b))
       read_buffer.resize(size_t(db.get_size(b)));
 
      decoder.decode
-- 
2.43.0


From 3ad6cfaee097fe0d2bb82c10757ea1e16170fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 09/30] fix: reject a Brotli block that does not have the
 expected size

---
 src/joedb/journal/Brotli_Decoder.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/joedb/journal/Brotli_Decoder.cpp b/src/joedb/journal/Brotli_Decoder.cpp
index 3addcf6..59b4c05 100644
--- a/src/joedb/journal/Brotli_Decoder.cpp
+++ b/src/joedb/journal/Brotli_Decoder.cpp
@@ -1,6 +1,5 @@
 #include "joedb/journal/Brotli_Decoder.h"
 #include "joedb/error/Exception.h"
-#include "joedb/error/assert.h"
 
 #include <brotli/decode.h>
 
@@ -25,9 +24,7 @@ namespace joedb
    (uint8_t *)decoded
   );
 
-  JOEDB_DEBUG_ASSERT(brotli_decoded_size == decoded_size);
-
-  if (result != BROTLI_DECODER_RESULT_SUCCESS)
+  if (result != BROTLI_DECODER_RESULT_SUCCESS || brotli_decoded_size != decoded_size)
    throw Exception("Brotli decompression failed");
  }
 }
-- 
2.43.0


From e41b05b1f44895be1e72f03e7839cd749e5ef7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 10/30] fix: release the lock of an interpreted file when
 reading it fails

---
 src/joedb/journal/Interpreted_File.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/Interpreted_File.cpp b/src/joedb/journal/Interpreted_File.cpp
index a4eefbd..34bf740 100644
--- a/src/joedb/journal/Interpreted_File.cpp
+++ b/src/joedb/journal/Interpreted_File.cpp
@@ -88,7 +88,16 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   filebuf.get_file().shared_lock(start, size);
-  read_data();
+
+  try
+  {
+   read_data();
+  }
+  catch (...)
+  {
+   filebuf.get_file().unlock(start, size);
+   throw;
+  }
  }
 
  ////////////////////////////////////////////////////////////////////////////
@@ -96,7 +105,16 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   filebuf.get_file().exclusive_lock(start, size);
-  read_data();
+
+  try
+  {
+   read_data();
+  }
+  catch (...)
+  {
+   filebuf.get_file().unlock(start, size);
+   throw;
+  }
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From cb571598a483e1acb3c461e22f7e6d101c0253b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 11/30] fix: do not return an uninitialized character when
 putting back past the end of a file

---
 src/joedb/journal/filebuf.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index c764e69..091aac2 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -188,9 +188,11 @@ namespace joedb
  {
   if (gptr() == eback() && in_pos > 0)
   {
-   in_pos -= 1;
-   setg(buffer.data(), buffer.data() + 1, buffer.data() + 1);
-   file.pread(buffer.data(), 1, in_pos);
+   if (file.pread(buffer.data(), 1, in_pos - off_type(1)) == 1)
+   {
+    in_pos -= 1;
+    setg(buffer.data(), buffer.data() + 1, buffer.data() + 1);
+   }
   }
 
   if (gptr() > eback())
-- 
2.43.0


From 88517d644262f1d6b180d9918a08418c3ca1488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 12/30] fix: do not write a conflicting push with the writer of
 a previous push

---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index a04519a..cf5d44f 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -372,6 +372,7 @@ namespace joedb
   );
 
   push_status = buffer.data[0];
+  push_writer.reset();
 
   if (!get_server().writable_journal_client)
    push_status = 'R';
-- 
2.43.0


From 8c0a101dbe058994f78ac87e2948b1c9e569d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 13/30] fix: seek a stream file when switching between reading
 and writing

---
 src/joedb/journal/Stream_File.cpp | 15 ++++++++++-----
 src/joedb/journal/Stream_File.h   |  3 ++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Stream_File.cpp b/src/joedb/journal/Stream_File.cpp
index d3c55a5..0e9f974 100644
--- a/src/joedb/journal/Stream_File.cpp
+++ b/src/joedb/journal/Stream_File.cpp
@@ -12,7 +12,8 @@ namespace joedb
  ):
   Abstract_File(mode),
   streambuf(streambuf),
-  pos(0)
+  pos(0),
+  writing(false)
  {
   streambuf.pubseekoff
   (
@@ -26,6 +27,7 @@ namespace joedb
  int64_t Stream_File::get_size() const
  /////////////////////////////////////////////////////////////////////////////
  {
+  writing = false;
   pos = streambuf.pubseekoff
   (
    0,
@@ -37,12 +39,15 @@ namespace joedb
  }
 
  /////////////////////////////////////////////////////////////////////////////
- void Stream_File::seek(int64_t offset) const
+ void Stream_File::seek(int64_t offset, bool for_writing) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  if (int64_t(pos) == offset)
+  // input and output positions may be different
+  if (int64_t(pos) == offset && writing == for_writing)
    return;
 
+  writing = for_writing;
+
   if (offset >= 0)
   {
    pos = streambuf.pubseekoff(offset, std::ios_base::beg);
@@ -57,7 +62,7 @@ namespace joedb
  size_t Stream_File::pread(char *data, size_t size, int64_t offset) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, false);
   const std::streamsize n = streambuf.sgetn(data, std::streamsize(size));
   pos += n;
   return size_t(n);
@@ -67,7 +72,7 @@ namespace joedb
  void Stream_File::pwrite(const char *data, size_t size, int64_t offset)
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, true);
 
   size_t written = 0;
 
diff --git a/src/joedb/journal/Stream_File.h b/src/joedb/journal/Stream_File.h
index bfa7b8a..6ffed34 100644
--- a/src/joedb/journal/Stream_File.h
+++ b/src/joedb/journal/Stream_File.h
@@ -13,7 +13,8 @@ namespace joedb
   private:
    std::streambuf &streambuf;
    mutable std::streambuf::pos_type pos;
-   void seek(int64_t offset) const;
+   mutable bool writing;
+   void seek(int64_t offset, bool for_writing) const;
 
   public:
    static constexpr bool lockable = false;
-- 
2.43.0


From 9259273258523b6d5a973a35474c63c9fd003ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:22 +0000
Subject: [PATCH 14/30] fix: flush pending output before seeking from the end
 of a file buffer

---
 src/joedb/journal/filebuf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index 091aac2..6689823 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -44,7 +44,10 @@ namespace joedb
     : out_pos + pptr() - pbase();
   }
   else if (dir == std::ios_base::end)
+  {
+   syncp();
    base = file.get_size();
+  }
 
   if (base < 0)
    return pos_type(off_type(-1));
-- 
2.43.0


From fb5c6c4d8bd1c6a9fb32fdbd36ceea22f7683b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:07 +0000
Subject: [PATCH 15/30] fix: do not dump an uninitialized header when the file
 is too short

---
 src/joedb/ui/diagnostics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/diagnostics.cpp b/src/joedb/ui/diagnostics.cpp
index bc9a0f9..d06999a 100644
--- a/src/joedb/ui/diagnostics.cpp
+++ b/src/joedb/ui/diagnostics.cpp
@@ -32,7 +32,8 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   Header header;
-  file.pread((char *)(&header), Header::size, 0);
+  if (file.pread((char *)(&header), Header::size, 0) < Header::size)
+   Abstract_File::reading_past_end_of_file();
 
   out << "    file size: " << file.get_size();
 
-- 
2.43.0


From ca55945768a034c5bac609ca2a5b2f49583a2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:11 +0000
Subject: [PATCH 16/30] fix: start the keep-alive thread when the client is
 ready, and stop it before destroying what it uses

---
 src/joedb/concurrency/Keep_Alive_Thread.h | 5 +++++
 src/joedb/concurrency/Server_Client.cpp   | 5 +++--
 src/joedb/concurrency/Server_Client.h     | 6 +++++-
 src/joedb/rpc/Client.h                    | 1 +
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/joedb/concurrency/Keep_Alive_Thread.h b/src/joedb/concurrency/Keep_Alive_Thread.h
index f7db6e2..87fe845 100644
--- a/src/joedb/concurrency/Keep_Alive_Thread.h
+++ b/src/joedb/concurrency/Keep_Alive_Thread.h
@@ -65,6 +65,11 @@ namespace joedb
     interval(interval),
     thread_must_stop(false),
     stopped(true)
+   {
+   }
+
+   /// Must be called when the client is ready to ping
+   void start()
    {
     if (interval.count() > 0)
     {
diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index 94558e4..caeabce 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -116,13 +116,14 @@ namespace joedb
   Logger &logger,
   std::chrono::milliseconds keep_alive_interval
  ):
-  keep_alive(*this, keep_alive_interval),
   channel(channel),
   logger(logger),
   session_id(-1),
-  pullonly_server(false)
+  pullonly_server(false),
+  keep_alive(*this, keep_alive_interval)
  {
   connect();
+  keep_alive.start();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server_Client.h b/src/joedb/concurrency/Server_Client.h
index 6024cab..76c5021 100644
--- a/src/joedb/concurrency/Server_Client.h
+++ b/src/joedb/concurrency/Server_Client.h
@@ -19,7 +19,6 @@ namespace joedb
 
   private:
    void locked_ping(Lock<Channel&> &lock) override;
-   Keep_Alive_Thread keep_alive;
 
    void connect();
    void disconnect();
@@ -35,6 +34,11 @@ namespace joedb
    bool pullonly_server;
    int64_t server_checkpoint;
 
+  private:
+   // last member: thread is joined before destroying what it uses
+   Keep_Alive_Thread keep_alive;
+
+  protected:
    void download
    (
     Async_Writer &writer,
diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index 8834e75..a0853bb 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -60,6 +60,7 @@ namespace joedb::rpc
     keep_alive(*this, keep_alive_interval)
    {
     handshake();
+    keep_alive.start();
    }
 
    void call(int64_t procedure_id, Memory_File &file)
-- 
2.43.0


From 1fbe5a9d0c5d9bb40fad8d0fc70bae66b8229a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:11 +0000
Subject: [PATCH 17/30] fix: do not use the buffer of a server connection
 without locking the channel

---
 src/joedb/concurrency/Server_Connection.cpp | 33 +++++++++++----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 8df0ec3..c763ee6 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -9,12 +9,13 @@ namespace joedb
  size_t Server_Connection::pread(char *data, size_t size, int64_t offset) const
  ////////////////////////////////////////////////////////////////////////////
  {
+  Lock<Channel&> lock(channel);
+
   buffer.index = 0;
   buffer.write<char>('r');
   buffer.write<int64_t>(offset);
   buffer.write<int64_t>(offset + int64_t(size));
 
-  Lock<Channel&> lock(channel);
   lock->write(buffer.data, buffer.index);
   lock->read(buffer.data, 9);
 
@@ -51,25 +52,25 @@ namespace joedb
    client_journal.get_checkpoint()
   );
 
-  buffer.index = 0;
-  buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
-  buffer.write<int64_t>(checkpoint);
-  buffer.write
-  (
-   content_check == Content_Check::fast
+  const SHA_256::Hash hash = content_check == Content_Check::fast
    ? Journal_Hasher::get_fast_hash(client_journal, checkpoint)
-   : Journal_Hasher::get_full_hash(client_journal, checkpoint)
-  );
+   : Journal_Hasher::get_full_hash(client_journal, checkpoint);
+
+  char reply;
 
   {
    Lock<Channel&> lock(channel);
+   buffer.index = 0;
+   buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
+   buffer.write<int64_t>(checkpoint);
+   buffer.write(hash);
    lock->write(buffer.data, buffer.index);
-   lock->read(buffer.data, 1);
+   lock->read(&reply, 1);
   }
 
-  log(std::string("hash result: ") + buffer.data[0]);
+  log(std::string("hash result: ") + reply);
 
-  if (buffer.data[0] == 'h')
+  if (reply == 'h')
    content_mismatch();
 
   return server_checkpoint;
@@ -189,16 +190,18 @@ namespace joedb
  {
   log("joedb::Server_Connection::unlock");
 
+  char reply;
+
   {
    Lock<Channel&> lock(channel);
    buffer.data[0] = 'M';
    lock->write(buffer.data, 1);
-   lock->read(buffer.data, 1);
+   lock->read(&reply, 1);
   }
 
-  log(std::string() + buffer.data[0]);
+  log(std::string() + reply);
 
-  if (buffer.data[0] != 'M')
+  if (reply != 'M')
    throw Disconnection("unlock error: unexpected reply");
  }
 }
-- 
2.43.0


From 61890454b709cee57a0531661e49427ac89fe6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:11 +0000
Subject: [PATCH 18/30] fix: unlock the connection when reading the journal
 fails at the start of a transaction

---
 src/joedb/concurrency/Writable_Client.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/joedb/concurrency/Writable_Client.h b/src/joedb/concurrency/Writable_Client.h
index 46eb43f..2df22bd 100644
--- a/src/joedb/concurrency/Writable_Client.h
+++ b/src/joedb/concurrency/Writable_Client.h
@@ -92,7 +92,15 @@ namespace joedb
      get_writable_journal()
     );
 
-    read_journal();
+    try
+    {
+     read_journal();
+    }
+    catch (...)
+    {
+     connection.unlock();
+     throw;
+    }
    }
 
   public:
-- 
2.43.0


From 694d264bc404a3df246eaefa22d4248dad7618d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:11 +0000
Subject: [PATCH 19/30] fix: reject rpc messages whose announced size is too
 small

---
 src/joedb/rpc/Client.h | 2 ++
 src/joedb/rpc/Server.h | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index a0853bb..5cbd6c1 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -92,6 +92,8 @@ namespace joedb::rpc
     {
      const size_t from = file.get_data().size();
      const int64_t until = buffer.read<int64_t>();
+     if (until < int64_t(from))
+      throw Exception("bad reply size");
      file.get_data().resize(size_t(until));
      lock->read(file.get_data().data() + from, size_t(until) - from);
      file.pwrite((const char *)&until, 8, 0);
diff --git a/src/joedb/rpc/Server.h b/src/joedb/rpc/Server.h
index 4cfcf48..944bba2 100644
--- a/src/joedb/rpc/Server.h
+++ b/src/joedb/rpc/Server.h
@@ -67,6 +67,9 @@ namespace joedb::rpc
       if (get_server().log_level > 2)
        log("procedure[" + std::to_string(id) + "]: " + signature.name);
 
+      if (until < int64_t(signature.prolog.size()))
+       throw Exception("bad message size");
+
       //
       // Read input message into a Memory_File
       //
-- 
2.43.0


From dde72dbeedeab4a0f6002ba3d25209c2679a212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:50 +0000
Subject: [PATCH 20/30] fix: detect incomplete copies from a CURL file, and
 copy to the end when size is unknown

---
 src/joedb/journal/CURL_File.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/CURL_File.cpp b/src/joedb/journal/CURL_File.cpp
index fce63c4..242f3ff 100644
--- a/src/joedb/journal/CURL_File.cpp
+++ b/src/joedb/journal/CURL_File.cpp
@@ -18,8 +18,9 @@ namespace joedb
  void CURL_File::perform_range(int64_t start, int64_t size) const
  ////////////////////////////////////////////////////////////////////////////
  {
-  const std::string range =
-   std::to_string(start) + '-' + std::to_string(start + size - 1);
+  std::string range = std::to_string(start) + '-';
+  if (size >= 0)
+   range += std::to_string(start + size - 1);
 
   error_check(curl_easy_setopt(curl, CURLOPT_RANGE, range.c_str()));
   error_check(curl_easy_perform(curl));
@@ -104,6 +105,8 @@ namespace joedb
   error_check(curl_easy_setopt(curl, CURLOPT_WRITEDATA, &file_iterator));
   error_check(curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, copy_callback));
   perform_range(start, size);
+  if (size >= 0 && file_iterator.get_position() != start + size)
+   reading_past_end_of_file();
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2853a3b8958412ef903a9e1e4b6dfc5394e261fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:30 +0000
Subject: [PATCH 21/30] fix: Pullonly_Journal_Connection reports that it is
 pull-only

is_pullonly() was inherited from Connection and returned false, though
locking and pushing always throw: a server or a command-line client of a
read-only file announced itself as writable.
---
 src/joedb/concurrency/File_Connection.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/joedb/concurrency/File_Connection.h b/src/joedb/concurrency/File_Connection.h
index c90df9d..511a2a3 100644
--- a/src/joedb/concurrency/File_Connection.h
+++ b/src/joedb/concurrency/File_Connection.h
@@ -38,6 +38,11 @@ namespace joedb
     const int64_t until,
     Unlock_Action unlock_action
    ) override;
+
+   bool is_pullonly() const override
+   {
+    return true;
+   }
  };
 
  /// @ingroup concurrency
@@ -70,6 +75,11 @@ namespace joedb
 
    void unlock() override;
 
+   bool is_pullonly() const override
+   {
+    return false;
+   }
+
    ~Journal_Connection();
  };
 
-- 
2.43.0


From 433289189d59a31e34782aeea38efec4cf0298b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:25 +0000
Subject: [PATCH 22/30] fix: insert_<table>(id) refuses an invalid or used id

Compiled code used to insert the record again without any check: this
corrupted the list of free records, and wrote to the journal an insertion
that is rejected as a duplicate when the file is opened again.
---
 src/joedb/compiler/generator/Writable_Database_h.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/compiler/generator/Writable_Database_h.cpp b/src/joedb/compiler/generator/Writable_Database_h.cpp
index 598a5c5..95ace98 100644
--- a/src/joedb/compiler/generator/Writable_Database_h.cpp
+++ b/src/joedb/compiler/generator/Writable_Database_h.cpp
@@ -190,6 +190,7 @@ namespace joedb::generator
 
    out << "   void insert_" << tname << "(id_of_" << tname << " id)\n";
    out << "   {\n";
+   out << "    JOEDB_RELEASE_ASSERT(id.is_not_null() && !is_valid_record_id_for_" << tname << "(id.get_record_id()));\n";
    out << "    if (id.get_record_id() >= Record_Id(storage_of_" << tname << ".size()))\n";
    out << "     storage_of_" << tname << ".resize(id.get_id() + 1);\n";
    out << "    internal_insert_" << tname << "(id.get_record_id());\n";
-- 
2.43.0


From fe7b63ab8aa5b2d7a604b69df6cb202c7a951718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:25 +0000
Subject: [PATCH 23/30] fix: delete_vector_of_<table> checks the vector before
 deleting anything

Records at the end of the vector were deleted from memory, but not in the
journal, before the exception thrown for an invalid record. A vector that
the journal reader refuses (size 0 at a null id) could also be written.
---
 src/joedb/compiler/generator/Writable_Database_h.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/compiler/generator/Writable_Database_h.cpp b/src/joedb/compiler/generator/Writable_Database_h.cpp
index 95ace98..8b4aad1 100644
--- a/src/joedb/compiler/generator/Writable_Database_h.cpp
+++ b/src/joedb/compiler/generator/Writable_Database_h.cpp
@@ -267,6 +267,7 @@ namespace joedb::generator
 
     out << "   void delete_vector_of_" << tname << "(id_of_" << tname << " v, size_t size)\n";
     out << "   {\n";
+    out << "    JOEDB_RELEASE_ASSERT(storage_of_" << tname << ".freedom_keeper.is_used_vector(v.get_record_id(), size));\n";
     out << "    for (size_t i = size; i > 0;)\n";
     out << "     internal_delete_" << tname << "(v[--i].get_record_id());\n";
     out << "    journal.delete_vector(Table_Id(" << tid << "), v.get_record_id(), size);\n";
-- 
2.43.0


From a7b42ea2d59f99f11b6df4e2f33d63e3d3bae397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:25 +0000
Subject: [PATCH 24/30] fix: update_vector_of_<field> checks the vector before
 writing to it

The function of the caller was given a span over invalid memory before the
record ids were checked.
---
 src/joedb/compiler/generator/Writable_Database_h.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/compiler/generator/Writable_Database_h.cpp b/src/joedb/compiler/generator/Writable_Database_h.cpp
index 8b4aad1..815f573 100644
--- a/src/joedb/compiler/generator/Writable_Database_h.cpp
+++ b/src/joedb/compiler/generator/Writable_Database_h.cpp
@@ -322,6 +322,7 @@ namespace joedb::generator
      out << "   template<typename F> void update_vector_of_" << fname;
      out << "(id_of_" << tname << " record, size_t size, F f)\n";
      out << "   {\n";
+     out << "    JOEDB_RELEASE_ASSERT(storage_of_" << tname << ".freedom_keeper.is_used_vector(record.get_record_id(), size));\n";
      out << "    joedb::Span<";
      write_type(out, type, false, false);
      out << "> span(&storage_of_" << tname;
-- 
2.43.0


From c07023c6e363dfae849297ad48be6de87de634ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:32 +0000
Subject: [PATCH 25/30] fix: do not move the iterator of a record that is not
 in the index past its end

---
 src/joedb/compiler/generator/Database_h.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/compiler/generator/Database_h.cpp b/src/joedb/compiler/generator/Database_h.cpp
index 5ab6738..da79265 100644
--- a/src/joedb/compiler/generator/Database_h.cpp
+++ b/src/joedb/compiler/generator/Database_h.cpp
@@ -493,7 +493,8 @@ namespace joedb::generator
     out << "   {\n";
     out << "    JOEDB_RELEASE_ASSERT(is_valid_record_id_for_" << tname << "(id.get_record_id()));\n";
     out << "    auto iterator = storage_of_" << tname << ".iterator_over_" << index.name << "[id.get_id()];\n";
-    out << "    ++iterator;\n";
+    out << "    if (iterator != index_of_" << index.name << ".end())\n";
+    out << "     ++iterator;\n";
     out << "    if (iterator != index_of_" << index.name << ".end())\n";
     out << "     return iterator->second;\n";
     out << "    else\n";
-- 
2.43.0


From 6623da24bc1c01e079924b0683eb24ac9464909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:55 +0000
Subject: [PATCH 26/30] fix: do not read past the end of a list of free records
 when the size of a vector overflows

---
 src/joedb/Freedom_Keeper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index dff068a..d27f2a7 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -107,6 +107,7 @@ namespace joedb
     if
     (
      index.is_null() ||
+     index + size < index ||
      index + size > freedom_size
     )
     {
-- 
2.43.0


From 1a1bc372e95545f24d595276968c1ba74c3e629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:55 +0000
Subject: [PATCH 27/30] fix: refuse to create more tables than there are table
 ids

---
 src/joedb/interpreted/Database_Schema.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/joedb/interpreted/Database_Schema.cpp b/src/joedb/interpreted/Database_Schema.cpp
index a10c710..d2901e3 100644
--- a/src/joedb/interpreted/Database_Schema.cpp
+++ b/src/joedb/interpreted/Database_Schema.cpp
@@ -2,6 +2,8 @@
 #include "joedb/error/Exception.h"
 #include "joedb/is_identifier.h"
 
+#include <limits>
+
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -107,6 +109,8 @@ namespace joedb
 
   if (find_table(name) != Table_Id(0))
    throw Exception("create_table: name already used: " + name);
+  if (current_table_id == Table_Id(std::numeric_limits<std::underlying_type<Table_Id>::type>::max()))
+   throw Exception("create_table: reached maximum table count");
 
   ++current_table_id;
   tables.try_emplace(current_table_id);
-- 
2.43.0


From dd3a2f70bd0b3bd5346e6a59fe7ea2b1256d8961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:19 +0000
Subject: [PATCH 28/30] fix: check every record of an updated vector

---
 src/joedb/interpreted/Table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Table.h b/src/joedb/interpreted/Table.h
index 65e27ec..3f37d5c 100644
--- a/src/joedb/interpreted/Table.h
+++ b/src/joedb/interpreted/Table.h
@@ -77,8 +77,8 @@ namespace joedb
                                 const type *value)\
    {\
     const auto it = find_field_from_id(field_id);\
-    check_record_id(record_id);\
-    check_record_id(record_id + index_t(size) - 1);\
+    if (!freedom.is_used_vector(record_id, size))\
+     throw Exception("update: invalid record_id");\
     it->second.set_vector_##type_id(record_id, size, value);\
    }\
    type *get_own_##type_id##_storage(Record_Id record_id, Field_Id field_id)\
-- 
2.43.0


From 5b104789cc64d11bc68757054c053a05637ec623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:55 +0000
Subject: [PATCH 29/30] fix: clear the fields of a deleted record, like
 compiled databases do

---
 src/joedb/interpreted/Field.h   | 13 +++++++++++++
 src/joedb/interpreted/Table.cpp |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/src/joedb/interpreted/Field.h b/src/joedb/interpreted/Field.h
index 16022e5..f8e868f 100644
--- a/src/joedb/interpreted/Field.h
+++ b/src/joedb/interpreted/Field.h
@@ -57,6 +57,19 @@ namespace joedb
     }
    }
 
+   void clear(Record_Id record_id)
+   {
+    switch (type.get_type_id())
+    {
+     case Type::Type_Id::null: break;
+     #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
+     case Type::Type_Id::type_id:\
+      std::get<std::vector<cpp_type>>(column)[index(record_id)] = cpp_type();\
+     break;
+     #include "joedb/TYPE_MACRO.h"
+    }
+   }
+
    #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
    return_type get_##type_id(Record_Id record_id) const\
    {\
diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index b3eab9d..1d88cee 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -61,6 +61,8 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used(record_id));
+  for (auto &field: fields)
+   field.second.clear(record_id);
   freedom.free(record_id);
  }
 
@@ -88,6 +90,9 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used_vector(record_id, size));
+  for (auto &field: fields)
+   for (size_t i = 0; i < size; i++)
+    field.second.clear(record_id + i);
   freedom.free_vector(record_id, size);
  }
 }
-- 
2.43.0


From dc65b2a14a106a3c72e9f7abdb1083ca15b8f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:11 +0000
Subject: [PATCH 30/30] fix: previous record of the free list when no record is
 used

---
 src/joedb/Freedom_Keeper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index d27f2a7..caf0334 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -282,12 +282,12 @@ namespace joedb
 
     const Record_Id result = index - 1;
 
-    if (result == Record_Id{-1})
-     return used_list;
-
     if (result == used_size - 1)
      return free_list;
 
+    if (result == Record_Id{-1})
+     return used_list;
+
     return result;
    }
 
-- 
2.43.0

