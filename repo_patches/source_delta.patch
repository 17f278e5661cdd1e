From a98590bbea46e88a04b84385bab4d5027bf8395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 01/16] fix: base32_decode must not accept NUL characters

strchr also finds the terminating NUL of the alphabet, so a NUL in the input
was decoded as the value 32 and spilled into the neighbouring groups.
---
 sources/mystring.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/mystring.cpp b/sources/mystring.cpp
index fc435d2..f98751d 100644
--- a/sources/mystring.cpp
+++ b/sources/mystring.cpp
@@ -246,6 +246,8 @@ void base32_decode(const char* input, size_t size, std::string& output)
     for (size_t i = 0; i < size; ++i)
     {
         unsigned group;
+        if (input[i] == '\0')
+            throwInvalidArgumentException("Cannot decode string with base32");
         const char* finded = std::strchr(UPPER_BASE32_ALPHABET, input[i]);
         if (finded)
             group = unsigned(finded - UPPER_BASE32_ALPHABET);
-- 
2.43.0


From 52555388745edf9cf6b2830e7de8938573afb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 02/16] fix: FileBase::utimens must not store an uninitialised
 current time

---
 sources/files.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/files.cpp b/sources/files.cpp
index ff60aa2..211070a 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -337,6 +337,7 @@ void FileBase::utimens(const fuse_timespec* ts)
     if (m_store_time)
     {
         fuse_timespec current_time;
+        OSService::get_current_time(current_time);
 
         if (ts)
         {
-- 
2.43.0


From b8d9b7f018d5d301906cbe8273d63af86042c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 03/16] fix: lite getxattr must decrypt only the bytes the
 attribute has

---
 sources/lite_format.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 12ba4f0..ca4079b 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1113,9 +1113,11 @@ int FuseHighLevelOps::vgetxattr(const char* path,
     {
         return static_cast<int>(rc);
     }
+    // The caller's buffer may be larger than the value.
+    size_t true_size = xattr_->infer_decrypted_size(static_cast<size_t>(rc));
     xattr_->decrypt(
-        underlying_data.data(), underlying_data.size(), reinterpret_cast<byte*>(value), size);
-    return static_cast<int>(xattr_->infer_decrypted_size(rc));
+        underlying_data.data(), static_cast<size_t>(rc), reinterpret_cast<byte*>(value), true_size);
+    return static_cast<int>(true_size);
 }
 int FuseHighLevelOps::vsetxattr(const char* path,
                                 const char* name,
-- 
2.43.0


From a6c64baf924f6774daee5f87fa2f674a5f092814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 04/16] fix: lite setxattr must store empty values instead of
 ignoring them

---
 sources/lite_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index ca4079b..5a60aed 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1131,7 +1131,7 @@ int FuseHighLevelOps::vsetxattr(const char* path,
     {
         return -EINVAL;
     }
-    if (!value || size == 0)
+    if (!value)
     {
         return 0;
     }
-- 
2.43.0


From 9d749c83a4461db41f42ba693dcad1ffbae1b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 05/16] fix: refuse truncated components of legacy symlink
 targets

legacy_decrypt_path computed decoded_part.size() - kSIVSize without checking
that the tag is there at all, so a stored link target with a component that
decodes to fewer than 16 bytes made it read and write out of bounds.
---
 sources/lite_format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 5a60aed..0e42854 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -302,6 +302,8 @@ namespace
                         base32_decode(slice, slice_size, decoded_part);
                         if (decoded_part.size() >= sizeof(string_buffer))
                             throwVFSException(ENAMETOOLONG);
+                        if (decoded_part.size() < kSIVSize)
+                            throw InvalidFilenameException(std::string(path));
 
                         bool success = decryptor.decrypt_and_verify(&decoded_part[kSIVSize],
                                                                     decoded_part.size() - kSIVSize,
-- 
2.43.0


From bebe5ffa11951d4a3b24de9b1e68dbb6b9a655bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:11 +0000
Subject: [PATCH 06/16] fix: lite directory listings must leave out entries
 with undecryptable names

---
 sources/lite_format.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 0e42854..faf8bf1 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -674,7 +674,8 @@ namespace
                 try
                 {
                     std::visit(Overload{[&](std::string&& decoded) { decoded.swap(*name); },
-                                        [](const InvalidNameTag&) {},
+                                        [&](const InvalidNameTag&)
+                                        { throw InvalidFilenameException(under_name); },
                                         [&](const LongNameTag&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
                                         {
                                             auto&& table = lazy_get_table();
-- 
2.43.0


From c1d021d39aa51cfa0879df3ef2074b6db1162cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:50 +0000
Subject: [PATCH 07/16] fix: lite rmdir must keep the long name table of a
 directory that is not empty

---
 sources/lite_format.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index faf8bf1..5bff0cd 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -965,6 +965,28 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
                                LongNameComponentAction::kDelete,
                                [&](std::string&& enc_path)
                                {
+                                   try
+                                   {
+                                       return root_->remove_directory(enc_path);
+                                   }
+                                   catch (const ExceptionBase& e)
+                                   {
+                                       if (name_trans_->is_no_op()
+                                           || (e.error_number() != ENOTEMPTY
+                                               && e.error_number() != EEXIST))
+                                           throw;
+                                   }
+                                   // The table of long names may only go when nothing else is left
+                                   // in the directory.
+                                   auto traverser = root_->create_traverser(enc_path);
+                                   std::string name;
+                                   fuse_stat st;
+                                   while (traverser->next(&name, &st))
+                                   {
+                                       if (name != "." && name != ".."
+                                           && name != kLongNameTableFileName)
+                                           throwVFSException(ENOTEMPTY);
+                                   }
                                    root_->remove_file_nothrow(
                                        absl::StrCat(enc_path, "/", kLongNameTableFileName));
                                    root_->remove_directory(enc_path);
-- 
2.43.0


From 918a02f05cfdd8f7b9b3e708bc7a11e2a0d046fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:41 +0000
Subject: [PATCH 08/16] fix: refuse configuration files with a truncated
 authentication tag

---
 sources/params_io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/params_io.cpp b/sources/params_io.cpp
index 8d121e3..8f98876 100644
--- a/sources/params_io.cpp
+++ b/sources/params_io.cpp
@@ -201,6 +201,10 @@ DecryptedSecurefsParams decrypt(const LegacySecurefsJsonParams& legacy,
             auto mac = parse_hex(legacy.encrypted_key().mac());
             auto ciphertext = parse_hex(legacy.encrypted_key().ciphertext());
             auto header = get_version_header(legacy.version());
+            if (mac.size() != kParamMacSize)
+            {
+                return false;    // A shorter tag would be compared only partially
+            }
 
             CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
             dec.SetKeyWithIV(wrapping_key.data(), wrapping_key.size(), iv.data(), iv.size());
@@ -280,6 +284,11 @@ DecryptedSecurefsParams decrypt(const EncryptedSecurefsParams& encparams,
                                 absl::Span<const byte> password,
                                 /* nullable */ StreamBase* key_stream)
 {
+    if (encparams.mac().size() != kParamMacSize)
+    {
+        throw PasswordOrKeyfileIncorrectException();    // A shorter tag would be compared only
+                                                        // partially
+    }
     auto wrapping_key = compute_password_derived_key(encparams, password, key_stream);
     CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
     dec.SetKeyWithIV(wrapping_key.data(),
-- 
2.43.0


From 768fc9507d2a42d0b0f5633c3c4644465cc498a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 09/16] fix: report the POSIX error when a file is used as
 another type

---
 sources/exceptions.h | 7 +++++--
 sources/files.cpp    | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/exceptions.h b/sources/exceptions.h
index adbd9fb..36f31b5 100644
--- a/sources/exceptions.h
+++ b/sources/exceptions.h
@@ -217,13 +217,16 @@ class InvalidCastException final : public ExceptionBase
 private:
     const char* from_name;
     const char* to_name;
+    int m_errno;
 
 public:
-    explicit InvalidCastException(const char* from_name, const char* to_name)
-        : from_name(from_name), to_name(to_name)
+    explicit InvalidCastException(const char* from_name, const char* to_name, int errc = EPERM)
+        : from_name(from_name), to_name(to_name), m_errno(errc)
     {
     }
 
+    int error_number() const noexcept override { return m_errno; }
+
     std::string message() const override
     {
         return absl::StrFormat("Invalid cast from %s to %s", from_name, to_name);
diff --git a/sources/files.cpp b/sources/files.cpp
index 211070a..7fc2afa 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -277,7 +277,8 @@ void FileBase::flush()
 
 void FileBase::throw_invalid_cast(int to_type)
 {
-    throw InvalidCastException(type_name(this->type()), type_name(to_type));
+    throw InvalidCastException(
+        type_name(this->type()), type_name(to_type), error_number_for_not(to_type));
 }
 
 // The IV size is for historical reasons. Doesn't really matter.
-- 
2.43.0


From a1d330d2e2d6cde20c846c3dd088d56cbe902217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 10/16] fix: rmdir must not detach a directory that is not
 empty

---
 sources/full_format.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 9b06aa4..9b12b35 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -231,17 +231,22 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
 
     {
         FileLockGuard lg(*dirholder);
-        if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
+        if (!dirholder->cast_as<Directory>()->get_entry(last_component, id, type))
         {
             return -ENOENT;
         }
     }
 
     auto fp = ft_->open_as(id, type);
-    FileLockGuard lg(*fp);
+    DoubleFileLockGuard lg(*dirholder, *fp);
+    // The entry must stay in its parent unless the directory is really going to be removed.
     fp->cast_as<Directory>()->iterate_over_entries(
         [](const std::string& name, const id_type& id, int type) -> bool
         { throwVFSException(ENOTEMPTY); });
+    if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
+    {
+        return -ENOENT;
+    }
     fp->unlink();
     return 0;
 };
-- 
2.43.0


From 0f3d2d65c8380739aac93cfc70f2c7507e48a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 11/16] fix: rename must not replace a directory that is not
 empty or an entry of another type

---
 sources/full_format.cpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 9b12b35..3d357ea 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -337,6 +337,43 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     int from_type, to_type;
     bool has_to_item = false;
 
+    // Refuse what cannot be done before anything is changed.
+    {
+        DoubleFileLockGuard lg(*base_from, *base_to);
+
+        auto from_name = base_from->cast_as<Directory>()->get_entry(last_from, from_id, from_type);
+        if (!from_name)
+        {
+            return -ENOENT;
+        }
+        auto to_name = base_to->cast_as<Directory>()->get_entry(last_to, to_id, to_type);
+        has_to_item = to_name.has_value();
+        if (has_to_item && from_id == to_id
+            && (base_from->get_id() != base_to->get_id() || *from_name != *to_name))
+        {
+            // Two links of one file: both stay, with the spelling they have.
+            return 0;
+        }
+    }
+    if (has_to_item && from_id != to_id)
+    {
+        bool from_is_dir = from_type == Directory::class_type();
+        bool to_is_dir = to_type == Directory::class_type();
+        if (from_is_dir != to_is_dir)
+        {
+            return from_is_dir ? -ENOTDIR : -EISDIR;
+        }
+        if (to_is_dir)
+        {
+            auto holder = ft_->open_as(to_id, to_type);
+            FileLockGuard lg(*holder);
+            if (!holder->cast_as<Directory>()->empty())
+            {
+                return -ENOTEMPTY;
+            }
+        }
+    }
+
     {
         DoubleFileLockGuard lg(*base_from, *base_to);
 
-- 
2.43.0


From e659bbfc12339cb8a14f8a4476d4b1b9c47633f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 12/16] fix: unlink must not detach a directory

---
 sources/full_format.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 3d357ea..40c7672 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -207,7 +207,12 @@ int FuseHighLevelOps::vunlink(const char* path, const fuse_context* ctx)
 
     {
         FileLockGuard lg(*dirholder);
-        if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
+        auto dir = dirholder->cast_as<Directory>();
+        if (dir->get_entry(last_component, id, type) && type == Directory::class_type())
+        {
+            return -EISDIR;
+        }
+        if (!dir->remove_entry(last_component, id, type))
         {
             return -ENOENT;
         }
-- 
2.43.0


From 2c8fc00d73cc9e4af2e0f49d15dc1b4cd7c01070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:26 +0000
Subject: [PATCH 13/16] fix: a failed create must not leave storage behind

---
 sources/full_format.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 40c7672..1c24280 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -641,10 +641,18 @@ FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int ui
         holder->initialize_empty((mode & 0777) | FileBase::mode_for_type(type), uid, gid);
     }
     bool success = false;
+    try
     {
         FileLockGuard lg(*base_dir);
         success = base_dir->cast_as<Directory>()->add_entry(last_component, holder->get_id(), type);
     }
+    catch (...)
+    {
+        // Nothing refers to the new file, so its storage must go when the holder closes it.
+        FileLockGuard lg(*holder);
+        holder->unlink();
+        throw;
+    }
     if (!success)
     {
         FileLockGuard lg(*holder);
-- 
2.43.0


From a189ddd672ba5c06aa8c4fd5e404d6c526f235da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:39 +0000
Subject: [PATCH 14/16] fix: removing a file in the legacy layout must remove
 its first level directory too

---
 sources/file_table_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index e71e9be..85262ac 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -275,7 +275,7 @@ namespace
             m_root->remove_file_nothrow(filename);
             m_root->remove_file_nothrow(metaname);
             m_root->remove_directory_nothrow(second_level_dir);
-            m_root->remove_directory_nothrow(second_level_dir);
+            m_root->remove_directory_nothrow(first_level_dir);
         }
     };
 
-- 
2.43.0


From 9a0f4788c96c36e59c4696b5b5ca1b63becc61e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:48 +0000
Subject: [PATCH 15/16] fix: page offsets of large directories must not wrap at
 4 GiB

---
 sources/btree_dir.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sources/btree_dir.cpp b/sources/btree_dir.cpp
index 5994c14..1309522 100644
--- a/sources/btree_dir.cpp
+++ b/sources/btree_dir.cpp
@@ -22,6 +22,9 @@ static void dir_check(bool condition)
 namespace securefs
 {
 
+// In 64 bits, because a large directory has more pages than 32-bit offsets reach.
+static offset_type page_offset(uint32_t num) { return static_cast<offset_type>(num) * BLOCK_SIZE; }
+
 class NotBTreeNodeException : public CorruptedDirectoryException
 {
 public:
@@ -135,7 +138,7 @@ public:
 void BtreeDirectory::read_free_page(uint32_t num, FreePage& fp)
 {
     byte buffer[BLOCK_SIZE];
-    dir_check(m_stream->read(buffer, num * BLOCK_SIZE, BLOCK_SIZE) == BLOCK_SIZE);
+    dir_check(m_stream->read(buffer, page_offset(num), BLOCK_SIZE) == BLOCK_SIZE);
     if (from_little_endian<uint32_t>(buffer) != 0)
     {
         throw CorruptedDirectoryException();
@@ -149,7 +152,7 @@ void BtreeDirectory::write_free_page(uint32_t num, const FreePage& fp)
     byte buffer[BLOCK_SIZE] = {};
     to_little_endian(fp.next, buffer + sizeof(uint32_t));
     to_little_endian(fp.prev, buffer + sizeof(uint32_t) * 2);
-    m_stream->write(buffer, BLOCK_SIZE * num, BLOCK_SIZE);
+    m_stream->write(buffer, page_offset(num), BLOCK_SIZE);
 }
 
 uint32_t BtreeDirectory::allocate_page()
@@ -176,9 +179,9 @@ uint32_t BtreeDirectory::allocate_page()
 
 void BtreeDirectory::deallocate_page(uint32_t num)
 {
-    if (num * BLOCK_SIZE == this->m_stream->size())
+    if (page_offset(num) == this->m_stream->size())
     {
-        this->m_stream->resize((num - 1) * BLOCK_SIZE);
+        this->m_stream->resize(page_offset(num - 1));
         return;    // Special case where the stream can be shrinked
     }
 
@@ -398,7 +401,7 @@ bool BtreeDirectory::read_node(uint32_t num, BtreeDirectory::Node& n)
     if (num == INVALID_PAGE)
         throw CorruptedDirectoryException();
     byte buffer[BLOCK_SIZE];
-    dir_check(m_stream->read(buffer, num * BLOCK_SIZE, BLOCK_SIZE) == BLOCK_SIZE);
+    dir_check(m_stream->read(buffer, page_offset(num), BLOCK_SIZE) == BLOCK_SIZE);
     return n.from_buffer(buffer, array_length(buffer));
 }
 
@@ -408,7 +411,7 @@ void BtreeDirectory::write_node(uint32_t num, const BtreeDirectory::Node& n)
         throw CorruptedDirectoryException();
     byte buffer[BLOCK_SIZE];
     n.to_buffer(buffer, array_length(buffer));
-    m_stream->write(buffer, num * BLOCK_SIZE, BLOCK_SIZE);
+    m_stream->write(buffer, page_offset(num), BLOCK_SIZE);
 }
 
 bool BtreeDirectory::add_entry_impl(std::string_view name, const id_type& id, int type)
-- 
2.43.0


From e3dc46b0eb9522cefb2fe0b21e6b59ac44fe6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:25 +0000
Subject: [PATCH 16/16] fix: lite rename of one long-named link onto another
 link of the same file lost its name

The underlying rename does nothing when both paths are links to the same file,
but the entry of the first name was removed from the table of long names, so
that link was no longer listed.
---
 sources/lite_format.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 5bff0cd..10b82a6 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1054,6 +1054,15 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
         return 0;
     }
 
+    fuse_stat st_from{}, st_to{};
+    if (root_->stat(enc_from, &st_from) && root_->stat(enc_to, &st_to) && st_from.st_nlink > 1
+        && st_from.st_dev == st_to.st_dev && st_from.st_ino == st_to.st_ino)
+    {
+        // Both are links to the same file. The underlying rename does nothing and leaves both in
+        // place, so both long names must stay in the table.
+        return 0;
+    }
+
     DoubleLongNameLookupTable table(long_name_table_file_name(enc_from),
                                     long_name_table_file_name(enc_to));
     LockGuard<decltype(table)> lg(table);
-- 
2.43.0

