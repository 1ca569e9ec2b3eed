From 7d6f66b7fff5388aaaa8df8fdee275431c9d90c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 01/48] fix: full-format rmdir must not remove a non-empty
 directory

---
 sources/full_format.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 9b06aa4..1dd734e 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -231,17 +231,22 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
 
     {
         FileLockGuard lg(*dirholder);
-        if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
+        if (!dirholder->cast_as<Directory>()->get_entry(last_component, id, type))
         {
             return -ENOENT;
         }
     }
 
     auto fp = ft_->open_as(id, type);
-    FileLockGuard lg(*fp);
-    fp->cast_as<Directory>()->iterate_over_entries(
-        [](const std::string& name, const id_type& id, int type) -> bool
-        { throwVFSException(ENOTEMPTY); });
+    DoubleFileLockGuard lg(*dirholder, *fp);
+    if (!fp->cast_as<Directory>()->empty())
+    {
+        return -ENOTEMPTY;
+    }
+    if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
+    {
+        return -ENOENT;
+    }
     fp->unlink();
     return 0;
 };
-- 
2.43.0


From 4c1918526de7e871db59da638bdf027c54064908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 02/48] fix: full-format rename must not lose files on
 over-long names or non-empty targets

---
 sources/full_format.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 1dd734e..b9160c8 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -339,20 +339,39 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
 
     {
         DoubleFileLockGuard lg(*base_from, *base_to);
+        auto from_dir = base_from->cast_as<Directory>();
+        auto to_dir = base_to->cast_as<Directory>();
 
-        if (!base_from->cast_as<Directory>()->remove_entry(last_from, from_id, from_type))
+        // Look up both names before changing anything, so that a failure leaves both untouched.
+        if (!from_dir->get_entry(last_from, from_id, from_type))
         {
             return -ENOENT;
         }
-        has_to_item = base_to->cast_as<Directory>()->remove_entry(last_to, to_id, to_type);
+        if (to_dir->get_entry(last_to, to_id, to_type) && from_id != to_id
+            && to_type == Directory::class_type())
+        {
+            if (to_id == base_from->get_id() || to_id == base_to->get_id())
+            {
+                return -ENOTEMPTY;
+            }
+            auto holder = ft_->open_as(to_id, to_type);
+            FileLockGuard inner_lg(*holder);
+            if (!holder->cast_as<Directory>()->empty())
+            {
+                return -ENOTEMPTY;
+            }
+        }
+
+        from_dir->remove_entry(last_from, from_id, from_type);
+        has_to_item = to_dir->remove_entry(last_to, to_id, to_type);
         if (has_to_item && from_id == to_id)
         {
             // Cannot rename a hardlink onto itself
-            base_from->cast_as<Directory>()->add_entry(last_from, from_id, from_type);
-            base_to->cast_as<Directory>()->add_entry(last_to, to_id, to_type);
+            from_dir->add_entry(last_from, from_id, from_type);
+            to_dir->add_entry(last_to, to_id, to_type);
             return 0;
         }
-        base_to->cast_as<Directory>()->add_entry(last_to, from_id, from_type);
+        to_dir->add_entry(last_to, from_id, from_type);
     }
     if (has_to_item)
     {
-- 
2.43.0


From 5b3de5d81913ad932ca56e3baaf1c4fdfca30fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 03/48] fix: full-format creation that fails must not leak the
 new object

---
 sources/full_format.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index b9160c8..7dce020 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -618,10 +618,18 @@ FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int ui
         holder->initialize_empty((mode & 0777) | FileBase::mode_for_type(type), uid, gid);
     }
     bool success = false;
+    try
     {
         FileLockGuard lg(*base_dir);
         success = base_dir->cast_as<Directory>()->add_entry(last_component, holder->get_id(), type);
     }
+    catch (...)
+    {
+        // The new object is not reachable from anywhere, so it must not be left behind.
+        FileLockGuard lg(*holder);
+        holder->unlink();
+        throw;
+    }
     if (!success)
     {
         FileLockGuard lg(*holder);
-- 
2.43.0


From f385fc7601761e229fbdbb0a7886d7db0007bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 04/48] fix: refuse hard links to directories reached through a
 symlink

---
 sources/full_format.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 7dce020..cdac77d 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -297,6 +297,10 @@ int FuseHighLevelOps::vlink(const char* src, const char* dest, const fuse_contex
     {
         return -ENOENT;
     }
+    if ((**opened).type() == Directory::class_type())
+    {
+        return -EPERM;
+    }
     auto [base_dir, last_component] = open_base(dest);
     DoubleFileLockGuard lg(*base_dir, **opened);
     if (base_dir->cast_as<Directory>()->add_entry(
-- 
2.43.0


From 24c6965aa8d2c7580ca0cfeb8e5cbe8a149478cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 05/48] fix: do not touch a file object after giving up the
 reference to it

---
 sources/file_table_v2.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index e71e9be..471583a 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -335,9 +335,15 @@ namespace
 
 void FileTableCloser::operator()(FileBase* fb) const
 {
-    if (fb && table_ && fb->decref() <= 0)
+    if (!fb || !table_)
     {
-        table_->close(fb->get_id());
+        return;
+    }
+    // As soon as the reference is given up, another thread may destroy the object.
+    const id_type id = fb->get_id();
+    if (fb->decref() <= 0)
+    {
+        table_->close(id);
     }
 }
 std::shared_ptr<FileTableIO> make_table_io(std::shared_ptr<OSService> os_service,
-- 
2.43.0


From e3eb7aaa660497255cb669f3101fdace091a99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 06/48] fix: utimens used an uninitialised current time

---
 sources/files.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/files.cpp b/sources/files.cpp
index ff60aa2..211070a 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -337,6 +337,7 @@ void FileBase::utimens(const fuse_timespec* ts)
     if (m_store_time)
     {
         fuse_timespec current_time;
+        OSService::get_current_time(current_time);
 
         if (ts)
         {
-- 
2.43.0


From 4837a809bf80e4f455003174432064373565eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 07/48] fix: remove the emptied first-level directory in format
 version 1

---
 sources/file_table_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 471583a..4b4c7c4 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -275,7 +275,7 @@ namespace
             m_root->remove_file_nothrow(filename);
             m_root->remove_file_nothrow(metaname);
             m_root->remove_directory_nothrow(second_level_dir);
-            m_root->remove_directory_nothrow(second_level_dir);
+            m_root->remove_directory_nothrow(first_level_dir);
         }
     };
 
-- 
2.43.0


From fea33133d4f3d8e0c1565c4187140cbf7f6b607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 08/48] fix: a failing flush of the root directory must not
 terminate the process

---
 sources/file_table_v2.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 4b4c7c4..31afce9 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -121,14 +121,14 @@ std::unique_ptr<FileBase> FileTable::construct(int type,
 }
 void FileTable::close(const id_type& id)
 {
-    if (id == kRootId)
-    {
-        LockGuard<FileBase> lg(*root_);
-        root_->flush();
-        return;
-    }
     try
     {
+        if (id == kRootId)
+        {
+            LockGuard<FileBase> lg(*root_);
+            root_->flush();
+            return;
+        }
         close_internal(id);
     }
     catch (const std::exception& e)
-- 
2.43.0


From 79123882ff404beb7a89ecb7bf33f299f12fd839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 09/48] fix: lite getxattr must accept a buffer larger than the
 value

---
 sources/lite_format.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 12ba4f0..6c046cf 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1113,9 +1113,12 @@ int FuseHighLevelOps::vgetxattr(const char* path,
     {
         return static_cast<int>(rc);
     }
-    xattr_->decrypt(
-        underlying_data.data(), underlying_data.size(), reinterpret_cast<byte*>(value), size);
-    return static_cast<int>(xattr_->infer_decrypted_size(rc));
+    auto decrypted_size = xattr_->infer_decrypted_size(rc);
+    xattr_->decrypt(underlying_data.data(),
+                    static_cast<size_t>(rc),
+                    reinterpret_cast<byte*>(value),
+                    decrypted_size);
+    return static_cast<int>(decrypted_size);
 }
 int FuseHighLevelOps::vsetxattr(const char* path,
                                 const char* name,
-- 
2.43.0


From 7e53fb1d769a3186599b054ce6c5517a04645995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 10/48] fix: lite setxattr must not ignore empty values

---
 sources/lite_format.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 6c046cf..6dc7be4 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1132,9 +1132,13 @@ int FuseHighLevelOps::vsetxattr(const char* path,
     {
         return -EINVAL;
     }
-    if (!value || size == 0)
+    if (!value)
     {
-        return 0;
+        if (size > 0)
+        {
+            return -EFAULT;
+        }
+        value = "";
     }
 
     std::string wrapped_name = generic_xattr::encrypt_xattr_name(xattr_name_cryptor_.get(), name);
-- 
2.43.0


From b6fd90cc9ddc41edc0bc34105ccdde20ed7f6ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 11/48] fix: lite listing must skip names that do not decrypt

---
 sources/lite_format.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 6dc7be4..27d246e 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -669,10 +669,11 @@ namespace
                 }
                 if (under_name[0] == '.')
                     continue;
+                bool valid = true;
                 try
                 {
                     std::visit(Overload{[&](std::string&& decoded) { decoded.swap(*name); },
-                                        [](const InvalidNameTag&) {},
+                                        [&](const InvalidNameTag&) { valid = false; },
                                         [&](const LongNameTag&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
                                         {
                                             auto&& table = lazy_get_table();
@@ -695,6 +696,8 @@ namespace
                              e.what());
                     continue;
                 }
+                if (!valid)
+                    continue;
                 return true;
             }
         }
-- 
2.43.0


From a16f6536f681132633bc9958d49819fd54ccd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 12/48] fix: too short link targets must be refused instead of
 underflowing

---
 sources/lite_format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 27d246e..0306c46 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -302,6 +302,8 @@ namespace
                         base32_decode(slice, slice_size, decoded_part);
                         if (decoded_part.size() >= sizeof(string_buffer))
                             throwVFSException(ENAMETOOLONG);
+                        if (decoded_part.size() < kSIVSize)
+                            throw InvalidFilenameException(std::string(path));
 
                         bool success = decryptor.decrypt_and_verify(&decoded_part[kSIVSize],
                                                                     decoded_part.size() - kSIVSize,
-- 
2.43.0


From c68f4bf27ec871195cc81648987c5e9b8e80ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 13/48] fix: wait for a busy long name table also when it is
 being opened

---
 sources/lite_long_name_lookup_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index 119eb44..a3bdc6a 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -44,11 +44,11 @@ LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool reado
         SQLITE_OPEN_NOMUTEX
             | (readonly ? SQLITE_OPEN_READONLY : (SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE)),
         nullptr);
+    db_.set_timeout(2000);
     if (!readonly)
     {
         db_.exec(kCreateTableInMainDb);
     }
-    db_.set_timeout(2000);
 }
 
 LongNameLookupTable::~LongNameLookupTable() {}
-- 
2.43.0


From c9f276c850661ae117da45cbdaf37d4f25aa177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 14/48] fix: a pending wake up of the timer must not be lost by
 a later reset

---
 sources/resettable_timer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/resettable_timer.cpp b/sources/resettable_timer.cpp
index 6ca9c91..8a1a04a 100644
--- a/sources/resettable_timer.cpp
+++ b/sources/resettable_timer.cpp
@@ -24,7 +24,8 @@ void ResettableTimer::setTimePoint(absl::Time trigger_time)
     absl::MutexLock ml(&mu_);
     // If the new time point is in the future, then we can just let the work thread wake up
     // naturally.
-    should_wake_up_ = trigger_time < this->trigger_time_;
+    // But a wake up that is still pending must not be lost.
+    should_wake_up_ = should_wake_up_ || trigger_time < this->trigger_time_;
     this->trigger_time_ = trigger_time;
 
     if (!work_thread_.joinable())
-- 
2.43.0


From d3806a88b7db2fc3b21443d67ab45ec34a17dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 15/48] fix: a refused lite rmdir must not destroy the table of
 long names

---
 sources/lite_format.cpp | 31 +++++++++++++++++++++++++++++--
 sources/lite_format.h   |  3 +++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 0306c46..d69b069 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -967,8 +967,7 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
                                LongNameComponentAction::kDelete,
                                [&](std::string&& enc_path)
                                {
-                                   root_->remove_file_nothrow(
-                                       absl::StrCat(enc_path, "/", kLongNameTableFileName));
+                                   discard_long_name_table_of_empty_dir(enc_path);
                                    root_->remove_directory(enc_path);
                                });
     return 0;
@@ -1196,6 +1195,34 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
     }
     return fp;
 }
+void FuseHighLevelOps::discard_long_name_table_of_empty_dir(const std::string& enc_dir)
+{
+    if (name_trans_->is_no_op())
+    {
+        return;
+    }
+    // If the directory has any other content, then it can't be removed, and the table must be kept.
+    const std::string journal = absl::StrCat(kLongNameTableFileName, "-journal");
+    std::vector<std::string> to_remove;
+    auto traverser = root_->create_traverser(enc_dir);
+    std::string name;
+    while (traverser->next(&name, nullptr))
+    {
+        if (name == "." || name == "..")
+        {
+            continue;
+        }
+        if (name != kLongNameTableFileName && name != journal)
+        {
+            return;
+        }
+        to_remove.push_back(absl::StrCat(enc_dir, "/", name));
+    }
+    for (const auto& file : to_remove)
+    {
+        root_->remove_file_nothrow(file);
+    }
+}
 std::string FuseHighLevelOps::long_name_table_file_name(absl::string_view enc_path)
 {
     return root_->norm_path_narrowed(
diff --git a/sources/lite_format.h b/sources/lite_format.h
index c8abcae..1d81750 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -429,6 +429,9 @@ private:
                                     absl::FunctionRef<void(std::string&& enc_path)> callback);
 
     std::string long_name_table_file_name(absl::string_view enc_path);
+
+    /// @brief Removes the long name table of a directory when there is nothing else in it.
+    void discard_long_name_table_of_empty_dir(const std::string& enc_dir);
 };
 
 void change_long_name_suffix(const std::string& data_dir,
-- 
2.43.0


From b727ebe66db60251e4a92abd5ba70a0ac8747788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 16/48] fix: lite rename over an empty directory that still has
 a long name table

---
 sources/lite_format.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index d69b069..5cc6525 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1026,10 +1026,28 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     auto enc_from = name_trans_->encrypt_full_path(from, &encrypted_last_component_from);
     auto enc_to = name_trans_->encrypt_full_path(to, &encrypted_last_component_to);
 
+    auto rename_underlying = [&]()
+    {
+        try
+        {
+            root_->rename(enc_from, enc_to);
+        }
+        catch (const ExceptionBase& e)
+        {
+            if (e.error_number() != ENOTEMPTY && e.error_number() != EEXIST)
+            {
+                throw;
+            }
+            // The target may be a directory that contains nothing but its long name table.
+            discard_long_name_table_of_empty_dir(enc_to);
+            root_->rename(enc_from, enc_to);
+        }
+    };
+
     if (encrypted_last_component_from.empty() && encrypted_last_component_to.empty())
     {
         // Neither are long name, so fast path.
-        root_->rename(enc_from, enc_to);
+        rename_underlying();
         return 0;
     }
 
@@ -1046,7 +1064,7 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
         table.update_mapping_to_to_db(name_trans_->get_last_component(enc_to),
                                       encrypted_last_component_to);
     }
-    root_->rename(enc_from, enc_to);
+    rename_underlying();
     return 0;
 }
 int FuseHighLevelOps::vfsync(const char* path,
-- 
2.43.0


From 798a1fc6019318489f90dc6807963d64d402397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 17/48] fix: long names must not lose their mapping on crashes,
 failing commits or no-op renames

---
 sources/lite_format.cpp                 | 79 ++++++++++++++++++++++---
 sources/lite_format.h                   |  3 +
 sources/lite_long_name_lookup_table.cpp | 24 ++++++++
 sources/lite_long_name_lookup_table.h   | 10 ++++
 4 files changed, 108 insertions(+), 8 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 5cc6525..612af7b 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1055,16 +1055,45 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
                                     long_name_table_file_name(enc_to));
     LockGuard<decltype(table)> lg(table);
 
-    if (!encrypted_last_component_from.empty())
+    auto keyed_hash_to = name_trans_->get_last_component(enc_to);
+    if (!encrypted_last_component_to.empty())
     {
-        table.remove_mapping_from_from_db(name_trans_->get_last_component(enc_from));
+        // The mapping must be durable before the name comes into existence.
+        table.update_mapping_to_to_db(keyed_hash_to, encrypted_last_component_to);
+        table.checkpoint();
+        // This takes the lock again, and makes sure that nobody else has removed it in between.
+        table.update_mapping_to_to_db(keyed_hash_to, encrypted_last_component_to);
     }
-    if (!encrypted_last_component_to.empty())
+    try
     {
-        table.update_mapping_to_to_db(name_trans_->get_last_component(enc_to),
-                                      encrypted_last_component_to);
+        rename_underlying();
+    }
+    catch (...)
+    {
+        if (!encrypted_last_component_to.empty() && !may_exist(enc_to))
+        {
+            table.remove_mapping_from_to_db(keyed_hash_to);
+            table.checkpoint();
+        }
+        throw;
+    }
+    if (!encrypted_last_component_from.empty())
+    {
+        try
+        {
+            table.remove_mapping_from_from_db(name_trans_->get_last_component(enc_from));
+            // Renaming between two links of the same file does nothing.
+            if (may_exist(enc_from))
+            {
+                table.revert();
+            }
+        }
+        catch (const std::exception& e)
+        {
+            // The file has already been renamed. A surplus mapping does no harm.
+            ERROR_LOG("Failed to remove the mapping of %s: %s", from, e.what());
+        }
     }
-    rename_underlying();
     return 0;
 }
 int FuseHighLevelOps::vfsync(const char* path,
@@ -1213,6 +1242,18 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
     }
     return fp;
 }
+bool FuseHighLevelOps::may_exist(const std::string& enc_path) noexcept
+{
+    try
+    {
+        fuse_stat st;
+        return root_->stat(enc_path, &st);
+    }
+    catch (const std::exception&)
+    {
+        return true;
+    }
+}
 void FuseHighLevelOps::discard_long_name_table_of_empty_dir(const std::string& enc_dir)
 {
     if (name_trans_->is_no_op())
@@ -1270,15 +1311,37 @@ void FuseHighLevelOps::process_possible_long_name(
     switch (action)
     {
     case LongNameComponentAction::kCreate:
-        table.update_mapping(name_trans_->get_last_component(enc_path), encrypted_last_component);
+    {
+        const std::string path_to_create = enc_path;
+        auto keyed_hash = name_trans_->get_last_component(path_to_create);
+        // The mapping must be durable before the name comes into existence, otherwise the name is
+        // lost when the commit fails or never happens.
+        table.update_mapping(keyed_hash, encrypted_last_component);
+        table.checkpoint();
+        // This takes the lock again, and makes sure that nobody else has removed it in between.
+        table.update_mapping(keyed_hash, encrypted_last_component);
+        try
+        {
+            callback(std::move(enc_path));
+        }
+        catch (...)
+        {
+            if (!may_exist(path_to_create))
+            {
+                table.remove_mapping(keyed_hash);
+                table.checkpoint();
+            }
+            throw;
+        }
         break;
+    }
     case LongNameComponentAction::kDelete:
         table.remove_mapping(name_trans_->get_last_component(enc_path));
+        callback(std::move(enc_path));
         break;
     default:
         throw_runtime_error("Unspecified action");
     }
-    callback(std::move(enc_path));
 }
 
 std::shared_ptr<NameTranslator>
diff --git a/sources/lite_format.h b/sources/lite_format.h
index 1d81750..9c006c8 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -430,6 +430,9 @@ private:
 
     std::string long_name_table_file_name(absl::string_view enc_path);
 
+    /// @brief Whether the underlying path exists, or might do so because it cannot be queried.
+    bool may_exist(const std::string& enc_path) noexcept;
+
     /// @brief Removes the long name table of a directory when there is nothing else in it.
     void discard_long_name_table_of_empty_dir(const std::string& enc_dir);
 };
diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index a3bdc6a..5e6fff9 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -36,6 +36,10 @@ namespace
             delete from main.encrypted_mappings
                 where keyed_hash = ?;
         )";
+    constexpr const char* kDeleteFromSecondaryMapping = R"(
+            delete from secondary.encrypted_mappings
+                where keyed_hash = ?;
+        )";
 }    // namespace
 LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool readonly)
 {
@@ -98,6 +102,18 @@ void LongNameLookupTable::remove_mapping(std::string_view keyed_hash)
 
 void internal::LookupTableBase::begin() { db_.exec("begin;"); }
 
+void internal::LookupTableBase::checkpoint()
+{
+    db_.exec("commit;");
+    begin();
+}
+
+void internal::LookupTableBase::revert()
+{
+    db_.exec("rollback;");
+    begin();
+}
+
 void internal::LookupTableBase::finish() noexcept
 {
     try
@@ -156,4 +172,12 @@ void DoubleLongNameLookupTable::update_mapping_to_to_db(std::string_view keyed_h
     q.step();
 }
 
+void DoubleLongNameLookupTable::remove_mapping_from_to_db(std::string_view keyed_hash)
+{
+    SQLiteStatement q(db_, is_same_db_ ? kDeleteFromMainMapping : kDeleteFromSecondaryMapping);
+    q.reset();
+    q.bind_text(1, keyed_hash);
+    q.step();
+}
+
 }    // namespace securefs
diff --git a/sources/lite_long_name_lookup_table.h b/sources/lite_long_name_lookup_table.h
index 22be010..589efc4 100644
--- a/sources/lite_long_name_lookup_table.h
+++ b/sources/lite_long_name_lookup_table.h
@@ -29,6 +29,13 @@ namespace internal
             db_.mutex().Unlock();
         }
 
+        /// @brief Makes the changes so far durable, while continuing with a new transaction.
+        /// Unlike the commit in `unlock`, failures are reported.
+        void checkpoint() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+
+        /// @brief Forgets the changes since the last checkpoint.
+        void revert() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+
     protected:
         SQLiteDB db_ ABSL_GUARDED_BY(*this);
 
@@ -67,6 +74,9 @@ public:
     void update_mapping_to_to_db(std::string_view keyed_hash, std::string_view encrypted_long_name)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
+    void remove_mapping_from_to_db(std::string_view keyed_hash)
+        ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+
 private:
     bool is_same_db_;
 };
-- 
2.43.0


From b803102576fe42d78db95b3cd87410d87647d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 18/48] fix: write the lite file header in one go

---
 sources/lite_stream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/lite_stream.cpp b/sources/lite_stream.cpp
index 72bdc47..cfb8f3e 100644
--- a/sources/lite_stream.cpp
+++ b/sources/lite_stream.cpp
@@ -100,14 +100,18 @@ AESGCMCryptStream::AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
     if (rc == 0)
     {
         generate_random(id.data(), id.size());
-        m_stream->write(id.data(), 0, id.size());
         m_padding_size = calc.compute_padding(id);
         m_auxiliary.resize(sizeof(std::uint32_t) + m_padding_size, 0);
         if (m_padding_size)
         {
             generate_random(m_auxiliary.data(), m_auxiliary.size());
-            m_stream->write(m_auxiliary.data() + sizeof(std::uint32_t), id.size(), m_padding_size);
         }
+        // The ID and the padding must be written in one go, because a file with only part of them
+        // can never be opened again.
+        std::vector<byte> header(id.begin(), id.end());
+        header.insert(
+            header.end(), m_auxiliary.begin() + sizeof(std::uint32_t), m_auxiliary.end());
+        m_stream->write(header.data(), 0, header.size());
     }
     else if (rc != id.size())
     {
-- 
2.43.0


From de100ba435421464aa9c18ab2e4c6f82e05ad961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 19/48] fix: listing must roll back an interrupted long name
 transaction instead of skipping all long names

---
 sources/lite_long_name_lookup_table.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index 5e6fff9..02155d8 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -46,7 +46,10 @@ LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool reado
     db_ = SQLiteDB(
         filename.c_str(),
         SQLITE_OPEN_NOMUTEX
-            | (readonly ? SQLITE_OPEN_READONLY : (SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE)),
+            // A transaction interrupted by a crash must be rolled back even if we only want to read,
+            // so the table is always opened for writing. SQLite itself falls back to read only access
+            // if the permissions do not allow more.
+            | (readonly ? SQLITE_OPEN_READWRITE : (SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE)),
         nullptr);
     db_.set_timeout(2000);
     if (!readonly)
-- 
2.43.0


From 2d8eb5993c7397888048139452c83c533bb90ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 20/48] fix: a lite file whose creation was interrupted must be
 readable as empty

---
 sources/lite_format.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 612af7b..51bea72 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1233,7 +1233,16 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
         path,
         (flags & O_CREAT) ? LongNameComponentAction::kCreate : LongNameComponentAction::kIgnore,
         [&](std::string&& enc_path)
-        { fp = std::make_unique<File>(root_->open_file_stream(enc_path, flags, mode), *opener_); });
+        {
+            auto stream = root_->open_file_stream(enc_path, flags, mode);
+            if ((flags & O_ACCMODE) == O_RDONLY && stream->size() == 0)
+            {
+                // The creation of the file was interrupted before its header was written.
+                stream = root_->open_file_stream(
+                    enc_path, (flags & ~(O_ACCMODE | O_CREAT | O_EXCL)) | O_RDWR, mode);
+            }
+            fp = std::make_unique<File>(std::move(stream), *opener_);
+        });
 
     if (flags & O_TRUNC)
     {
-- 
2.43.0


From e6d543e11bee3adc2658baa87776f9e3fe010469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 21/48] fix: left-over SQLite journals must not keep a lite
 directory from being removed

---
 sources/lite_format.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 51bea72..f749c85 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1270,7 +1270,8 @@ void FuseHighLevelOps::discard_long_name_table_of_empty_dir(const std::string& e
         return;
     }
     // If the directory has any other content, then it can't be removed, and the table must be kept.
-    const std::string journal = absl::StrCat(kLongNameTableFileName, "-journal");
+    // The journals, including the ones an interrupted process left behind.
+    const std::string journal_prefix = absl::StrCat(kLongNameTableFileName, "-");
     std::vector<std::string> to_remove;
     auto traverser = root_->create_traverser(enc_dir);
     std::string name;
@@ -1280,7 +1281,7 @@ void FuseHighLevelOps::discard_long_name_table_of_empty_dir(const std::string& e
         {
             continue;
         }
-        if (name != kLongNameTableFileName && name != journal)
+        if (name != kLongNameTableFileName && !absl::StartsWith(name, journal_prefix))
         {
             return;
         }
-- 
2.43.0


From f86938c1413cf38f59bf5c58b3a4735f2e678b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 22/48] fix: a failing flush while unmounting must not
 terminate the process or skip other files

---
 sources/file_table_v2.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 31afce9..4913e48 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -198,19 +198,33 @@ void FileTable::close_internal(const id_type id)
 FileTable::~FileTable()
 {
     VERBOSE_LOG("Flushing all opened and cached file descriptors, please wait...");
-    root_->flush();
+    // Nothing can be thrown here, and one failing flush must not prevent the others.
+    auto try_flush = [](FileBase& fb)
+    {
+        try
+        {
+            LockGuard<FileBase> inner_lg(fb);
+            fb.flush();
+        }
+        catch (const std::exception& e)
+        {
+            ERROR_LOG("Failed to flush a file: %s", e.what());
+        }
+    };
+    if (root_)
+    {
+        try_flush(*root_);
+    }
     for (auto&& s : shards)
     {
         LockGuard<Mutex> lg(s.mu);
         for (auto&& pair : s.live_map)
         {
-            LockGuard<FileBase> inner_lg(*pair.second);
-            pair.second->flush();
+            try_flush(*pair.second);
         }
         for (auto&& p : s.cache)
         {
-            LockGuard<FileBase> inner_lg(*p);
-            p->flush();
+            try_flush(*p);
         }
     }
 }
-- 
2.43.0


From c94eccc8dc60cebe8a9cdd9fc738beefd0036354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 23/48] fix: a kill must not leave full-format entries of
 removed or miscounted objects

---
 sources/full_format.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index cdac77d..f215019 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -211,6 +211,8 @@ int FuseHighLevelOps::vunlink(const char* path, const fuse_context* ctx)
         {
             return -ENOENT;
         }
+        // The entry must be gone from the storage before the object is.
+        dirholder->flush();
     }
 
     auto fp = ft_->open_as(id, type);
@@ -247,6 +249,8 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
     {
         return -ENOENT;
     }
+    // The entry must be gone from the storage before the object is.
+    dirholder->flush();
     fp->unlink();
     return 0;
 };
@@ -307,6 +311,8 @@ int FuseHighLevelOps::vlink(const char* src, const char* dest, const fuse_contex
             last_component, (**opened).get_id(), (**opened).get_real_type()))
     {
         (**opened).set_nlink((**opened).get_nlink() + 1);
+        // The storage must never have more entries of an object than it counts.
+        (**opened).flush();
         return 0;
     }
     return -EEXIST;
@@ -376,6 +382,9 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
             return 0;
         }
         to_dir->add_entry(last_to, from_id, from_type);
+        // At no time may the storage lack both entries, or have an entry of a removed object.
+        base_to->flush();
+        base_from->flush();
     }
     if (has_to_item)
     {
-- 
2.43.0


From a16e963ac66ed5cea24e86460cde66c1ed56e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 24/48] fix: a kill during creation must not leave entries of
 objects without metadata

---
 sources/full_format.cpp | 25 +++++++++++++++++--------
 sources/full_format.h   |  7 ++++++-
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index f215019..f38de40 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -289,9 +289,7 @@ int FuseHighLevelOps::vsymlink(const char* to, const char* from, const fuse_cont
         ERROR_LOG("Symlink target %s is absolute and therefore not supported", to);
         return -EINVAL;
     }
-    auto holder = create(from, 0644, Symlink::class_type(), ctx->uid, ctx->gid);
-    FileLockGuard fg(*holder);
-    holder->cast_as<Symlink>()->set(to);
+    create(from, 0644, Symlink::class_type(), ctx->uid, ctx->gid, to);
     return 0;
 };
 int FuseHighLevelOps::vlink(const char* src, const char* dest, const fuse_context* ctx)
@@ -622,17 +620,28 @@ FuseHighLevelOps::OpenBaseResult FuseHighLevelOps::open_base(absl::string_view p
     return {std::move(*generic_open_result), splits.back()};
 }
 FilePtrHolder
-FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int uid, int gid)
+FuseHighLevelOps::create(absl::string_view path,
+                         unsigned mode,
+                         int type,
+                         int uid,
+                         int gid,
+                         const char* symlink_target)
 {
     auto [base_dir, last_component] = open_base(path);
     auto holder = ft_->create_as(type);
-    {
-        FileLockGuard lg(*holder);
-        holder->initialize_empty((mode & 0777) | FileBase::mode_for_type(type), uid, gid);
-    }
     bool success = false;
     try
     {
+        {
+            // The object must be complete in the storage before there is any entry for it.
+            FileLockGuard lg(*holder);
+            holder->initialize_empty((mode & 0777) | FileBase::mode_for_type(type), uid, gid);
+            if (symlink_target)
+            {
+                holder->cast_as<Symlink>()->set(symlink_target);
+            }
+            holder->flush();
+        }
         FileLockGuard lg(*base_dir);
         success = base_dir->cast_as<Directory>()->add_entry(last_component, holder->get_id(), type);
     }
diff --git a/sources/full_format.h b/sources/full_format.h
index 4a67361..33b6df1 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -168,7 +168,12 @@ private:
                                               int recursion_depth = 0);
 
     OpenBaseResult open_base(absl::string_view path);
-    FilePtrHolder create(absl::string_view path, unsigned mode, int type, int uid, int gid);
+    FilePtrHolder create(absl::string_view path,
+                         unsigned mode,
+                         int type,
+                         int uid,
+                         int gid,
+                         const char* symlink_target = nullptr);
     std::optional<FilePtrHolder> open_all(absl::string_view path,
                                           bool resolve_last_symlink = false);
 
-- 
2.43.0


From 23a33dc231d5601fe90ec3024b5c679a2ca34671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 25/48] fix: objects without metadata must not be presented,
 and an interrupted first mount must not be final

---
 sources/file_table_v2.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 4913e48..14efc13 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -20,7 +20,6 @@ namespace securefs::full_format
 void FileTable::init()
 {
     FileStreamPtrPair pair;
-    bool newly = false;
     try
     {
         pair = io_->open(kRootId);
@@ -29,14 +28,19 @@ void FileTable::init()
     {
         INFO_LOG("Root directory not initialized, creating... (%s)", e.what());
         pair = io_->create(kRootId);
-        newly = true;
     }
+    // It is also new when a previous process died right after creating the files.
+    bool newly = pair.first->size() == 0 && pair.second->size() == 0;
     root_ = directory_factory_(pair.first, pair.second, kRootId);
+    LockGuard<FileBase> lg(*root_);
     if (newly)
     {
-        LockGuard<FileBase> lg(*root_);
         root_->initialize_empty(0755 | S_IFDIR, OSService::getuid(), OSService::getgid());
     }
+    if (root_->get_real_type() != Directory::class_type())
+    {
+        throwVFSException(EIO);
+    }
 }
 FilePtrHolder FileTable::create_holder(FileBase* fb)
 {
@@ -78,6 +82,11 @@ FilePtrHolder FileTable::open_as(const id_type& id, int type)
     }
     auto [data, meta] = io_->open(id);
     auto unique_base = construct(type, std::move(data), std::move(meta), id);
+    // An object without metadata, or with that of another type, was never stored like this.
+    if (unique_base->get_real_type() != type)
+    {
+        throwVFSException(EIO);
+    }
     auto holder = create_holder(unique_base);
     s.live_map.emplace(id, std::move(unique_base));
     return holder;
@@ -277,7 +286,8 @@ namespace
             calculate_paths(id, first_level_dir, second_level_dir, filename, metaname);
             m_root->ensure_directory(first_level_dir, 0755);
             m_root->ensure_directory(second_level_dir, 0755);
-            int open_flags = O_RDWR | O_CREAT | O_EXCL;
+            // The files of the root directory may be left over from an interrupted creation.
+            int open_flags = O_RDWR | O_CREAT | (id == kRootId ? 0 : O_EXCL);
             return std::make_pair(m_root->open_file_stream(filename, open_flags, 0644),
                                   m_root->open_file_stream(metaname, open_flags, 0644));
         }
@@ -330,7 +340,8 @@ namespace
             std::string dir, filename, metaname;
             calculate_paths(id, dir, filename, metaname);
             m_root->ensure_directory(dir, 0755);
-            int open_flags = O_RDWR | O_CREAT | O_EXCL;
+            // The files of the root directory may be left over from an interrupted creation.
+            int open_flags = O_RDWR | O_CREAT | (id == kRootId ? 0 : O_EXCL);
             return std::make_pair(m_root->open_file_stream(filename, open_flags, 0644),
                                   m_root->open_file_stream(metaname, open_flags, 0644));
         }
-- 
2.43.0


From e004fda8546258730404c24ac6fd416ae5b5c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 26/48] fix: full-format fsync must also write the
 authentication code

---
 sources/full_format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index f38de40..27f098f 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -399,6 +399,8 @@ int FuseHighLevelOps::vfsync(const char* path,
 {
     auto fp = get_file(info);
     FileLockGuard lg(*fp);
+    // Without the authentication code the synced contents would be unreadable.
+    fp->flush();
     fp->fsync();
     return 0;
 };
-- 
2.43.0


From b6ef9b19489341d2c93eb7cd158db60f4bb2a2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 27/48] fix: removing a name of a file updates its ctime

---
 sources/files.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/files.h b/sources/files.h
index ce44fe5..71b19ca 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -329,6 +329,7 @@ public:
     void unlink() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
     {
         --m_flags[3];
+        update_ctime_helper();
         m_dirty = true;
     }
 
-- 
2.43.0


From feb2b2e070c373135c4cf5e7e7df42d6b5795972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 28/48] fix: the owner override also applies to lite
 repositories

---
 sources/internal_mount.cpp | 31 +++++++++++++++++++++----------
 sources/lite_format.cpp    | 13 +++++++++++++
 sources/lite_format.h      | 13 ++++++++++---
 3 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index c63c320..b348cf4 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -112,6 +112,19 @@ namespace
                                                         std::move(directory_factory),
                                                         std::move(symlink_factory));
     };
+    OwnerOverride make_owner_override(const MountOptions& mount_options)
+    {
+        OwnerOverride owner_override{};
+        if (mount_options.has_uid_override())
+        {
+            owner_override.uid_override = mount_options.uid_override();
+        }
+        if (mount_options.has_gid_override())
+        {
+            owner_override.gid_override = mount_options.gid_override();
+        }
+        return owner_override;
+    }
     std::shared_ptr<FuseHighLevelOpsBase>
     make_inner_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
                                    const DecryptedSecurefsParams& params,
@@ -186,15 +199,7 @@ make_full_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
     auto file_table = make_file_table(os_service, params, mount_options);
     auto locker = std::make_shared<full_format::RepoLocker>(
         os_service, StrongType<bool, tReadOnly>(mount_options.read_only()));
-    OwnerOverride owner_override{};
-    if (mount_options.has_uid_override())
-    {
-        owner_override.uid_override = mount_options.uid_override();
-    }
-    if (mount_options.has_gid_override())
-    {
-        owner_override.gid_override = mount_options.gid_override();
-    }
+    auto owner_override = make_owner_override(mount_options);
     return std::make_shared<full_format::FuseHighLevelOps>(
         std::move(os_service),
         std::move(file_table),
@@ -248,7 +253,13 @@ make_lite_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
 
     // Construct and return FuseHighLevelOps
     return std::make_shared<lite_format::FuseHighLevelOps>(
-        os_service, opener, name_trans, xattr, xattr_master_key, enable_xattr);
+        os_service,
+        opener,
+        name_trans,
+        xattr,
+        xattr_master_key,
+        enable_xattr,
+        make_owner_override(mount_options));
 }
 
 std::shared_ptr<FuseHighLevelOpsBase>
diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index f749c85..a64fc03 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -775,6 +775,7 @@ int FuseHighLevelOps::vgetattr(const char* path, fuse_stat* buf, const fuse_cont
     auto enc_path = name_trans_->encrypt_full_path(path, nullptr);
     if (!root_->stat(enc_path, buf))
         return -ENOENT;
+    postprocess_stat(buf);
     if (buf->st_size <= 0)
         return 0;
     switch (buf->st_mode & S_IFMT)
@@ -847,8 +848,20 @@ int FuseHighLevelOps::vfgetattr(const char* path,
     auto fp = get_base(info);
     LockGuard<Base> lg(*fp);
     fp->fstat(st);
+    postprocess_stat(st);
     return 0;
 }
+void FuseHighLevelOps::postprocess_stat(fuse_stat* st)
+{
+    if (owner_override_.uid_override.has_value())
+    {
+        st->st_uid = *owner_override_.uid_override;
+    }
+    if (owner_override_.gid_override.has_value())
+    {
+        st->st_gid = *owner_override_.gid_override;
+    }
+}
 int FuseHighLevelOps::vopendir(const char* path, fuse_file_info* info, const fuse_context* ctx)
 {
     auto dir = std::make_unique<DirectoryImpl>(
diff --git a/sources/lite_format.h b/sources/lite_format.h
index 9c006c8..4212f21 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -298,12 +298,14 @@ private:
                      std::shared_ptr<NameTranslator> name_trans,
                      std::shared_ptr<XattrCryptor> xattr,
                      const key_type& xattr_key,
-                     bool enable_xattr)
+                     bool enable_xattr,
+                     const OwnerOverride& owner_override)
         : root_(std::move(root))
         , opener_(std::move(opener))
         , name_trans_(std::move(name_trans))
         , xattr_(std::move(xattr))
         , enable_xattr_(enable_xattr)
+        , owner_override_(owner_override)
         , xattr_name_cryptor_(
               [xattr_key]()
               { return std::make_unique<AES_SIV>(xattr_key.data(), xattr_key.size()); })
@@ -317,13 +319,15 @@ public:
                      std::shared_ptr<NameTranslator> name_trans,
                      std::shared_ptr<XattrCryptor> xattr,
                      const StrongType<key_type, tXattrMasterKey>& xattr_key,
-                     StrongType<bool, tEnableXattr> enable_xattr)
+                     StrongType<bool, tEnableXattr> enable_xattr,
+                     const OwnerOverride& owner_override = {})
         : FuseHighLevelOps(std::move(root),
                            std::move(opener),
                            std::move(name_trans),
                            std::move(xattr),
                            xattr_key.get(),
-                           enable_xattr.get())
+                           enable_xattr.get(),
+                           owner_override)
     {
     }
 
@@ -412,6 +416,9 @@ private:
     std::shared_ptr<XattrCryptor> xattr_;
     ThreadLocal<AES_SIV> xattr_name_cryptor_;
     bool enable_xattr_;
+    OwnerOverride owner_override_;
+
+    void postprocess_stat(fuse_stat* st);
     bool read_dir_plus_ = false;
 
 private:
-- 
2.43.0


From 6e6ba55d37400e0f1229c08de72bda955a585a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 29/48] fix: two processes starting at the same time cannot
 both take the repository lock; a refused mount and a closing one no longer
 write without it

---
 sources/full_format.cpp    | 56 ++++++++++++++++++--------------------
 sources/full_format.h      |  8 +++---
 sources/internal_mount.cpp |  3 +-
 3 files changed, 33 insertions(+), 34 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 27f098f..5ffb0be 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -720,42 +720,40 @@ void FuseHighLevelOps::postprocess_stat(fuse_stat* st)
 
 void RepoLocker::check_lock_file()
 {
-    lock_stream_ = open_lock_stream_checked();
-    auto pid = absl::StrCat(OSService::get_current_process_id());
-    lock_stream_->resize(0);
-    lock_stream_->write(pid.data(), 0, pid.size());
-}
-
-std::shared_ptr<FileStream> RepoLocker::open_lock_stream_checked()
-{
-    try
-    {
-        return root_->open_file_stream(kLockFileName, O_RDWR | O_CREAT | O_EXCL, 0644);
-    }
-    catch (const ExceptionBase& e)
-    {
-        if (e.error_number() != EEXIST)
+    while (true)
+    {
+        auto stream = root_->open_file_stream(kLockFileName, O_RDWR | O_CREAT, 0644);
+        // Other processes must not look at the file between our look at it and our writing to it.
+        stream->lock(true);
+        DEFER(stream->unlock());
+        fuse_stat opened{}, current{};
+        stream->fstat(&opened);
+        if (!root_->stat(kLockFileName, &current) || current.st_ino != opened.st_ino)
         {
-            throw;
-        }
-
-        auto result = root_->open_file_stream(kLockFileName, O_RDWR, 0644);
-        pid_t pid{};
-        if (absl::SimpleAtoi(result->as_string(), &pid) && OSService::is_process_running(pid))
-        {
-            ERROR_LOG("Failed to acquire lock file %s. Process %d is holding "
-                      "the lock.",
-                      root_->norm_path_narrowed(kLockFileName),
-                      pid);
-            throw;
+            // Its holder removed it after we had opened it.
+            continue;
         }
-        else
+        auto content = stream->as_string();
+        if (!content.empty())
         {
+            pid_t pid{};
+            if (absl::SimpleAtoi(content, &pid) && OSService::is_process_running(pid))
+            {
+                ERROR_LOG("Failed to acquire lock file %s. Process %d is holding "
+                          "the lock.",
+                          root_->norm_path_narrowed(kLockFileName),
+                          pid);
+                throwVFSException(EEXIST);
+            }
             WARN_LOG("Lock file %s exists but the process holding it has exited. The previous "
                      "securefs probably exited abnormally.",
                      root_->norm_path_narrowed(kLockFileName));
-            return result;
         }
+        auto pid = absl::StrCat(OSService::get_current_process_id());
+        stream->resize(0);
+        stream->write(pid.data(), 0, pid.size());
+        lock_stream_ = stream;
+        return;
     }
 }
 
diff --git a/sources/full_format.h b/sources/full_format.h
index 33b6df1..2c1725e 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -45,7 +45,6 @@ private:
     DISABLE_COPY_MOVE(RepoLocker)
 
     void check_lock_file();
-    std::shared_ptr<FileStream> open_lock_stream_checked();
 
     std::shared_ptr<OSService> root_;
     std::shared_ptr<FileStream> lock_stream_;
@@ -60,8 +59,8 @@ public:
                      StrongType<bool, tCaseInsensitive> case_insensitive,
                      StrongType<bool, tEnableXattr> enable_xattr)
         : root_(std::move(root))
-        , ft_(std::move(ft))
         , locker_(std::move(locker))
+        , ft_(std::move(ft))
         , owner_override_(owner_override)
         , case_insensitive_(case_insensitive.get())
         , enable_xattr_(enable_xattr.get())
@@ -148,9 +147,10 @@ public:
 
 private:
     std::shared_ptr<OSService> root_;
-    std::shared_ptr<FileTable> ft_;
     [[maybe_unused]] std::shared_ptr<RepoLocker>
-        locker_;    // We only needs this to construct and destruct.
+        locker_;    // We only needs this to construct and destruct. It must outlive the file table,
+                    // which writes to the repository upon destruction.
+    std::shared_ptr<FileTable> ft_;
     OwnerOverride owner_override_;
     bool case_insensitive_;
     bool enable_xattr_;
diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index b348cf4..3e8e744 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -196,9 +196,10 @@ make_full_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
                                      const DecryptedSecurefsParams& params,
                                      const MountOptions& mount_options)
 {
-    auto file_table = make_file_table(os_service, params, mount_options);
     auto locker = std::make_shared<full_format::RepoLocker>(
         os_service, StrongType<bool, tReadOnly>(mount_options.read_only()));
+    // Opening the file table may write to the repository, so it needs the lock.
+    auto file_table = make_file_table(os_service, params, mount_options);
     auto owner_override = make_owner_override(mount_options);
     return std::make_shared<full_format::FuseHighLevelOps>(
         std::move(os_service),
-- 
2.43.0


From e475fb15157531998c510ef56717d0768b0556f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 30/48] fix: a storage error while a directory splits, merges
 or is compacted no longer loses names

---
 sources/btree_dir.cpp | 137 +++++++++++++++++++++++++++++++++---------
 sources/btree_dir.h   |  10 ++-
 2 files changed, 114 insertions(+), 33 deletions(-)

diff --git a/sources/btree_dir.cpp b/sources/btree_dir.cpp
index 5994c14..0ddd53f 100644
--- a/sources/btree_dir.cpp
+++ b/sources/btree_dir.cpp
@@ -1,6 +1,7 @@
 #include "btree_dir.h"
 #include "exceptions.h"
 #include "files.h"
+#include "logger.h"
 
 #include <absl/strings/str_format.h>
 
@@ -152,7 +153,37 @@ void BtreeDirectory::write_free_page(uint32_t num, const FreePage& fp)
     m_stream->write(buffer, BLOCK_SIZE * num, BLOCK_SIZE);
 }
 
+void BtreeDirectory::set_prev_of_first_free_page(uint32_t prev)
+{
+    auto start = get_start_free_page();
+    try
+    {
+        FreePage fp;
+        read_free_page(start, fp);
+        fp.prev = prev;
+        write_free_page(start, fp);
+    }
+    catch (...)
+    {
+        // That page may be half written now, and whatever needs the list would fail from here on.
+        set_start_free_page(INVALID_PAGE);
+        set_num_free_page(0);
+        throw;
+    }
+}
+
 uint32_t BtreeDirectory::allocate_page()
+{
+    if (!m_reserved_pages.empty())
+    {
+        auto reserved = m_reserved_pages.back();
+        m_reserved_pages.pop_back();
+        return reserved;
+    }
+    return allocate_unreserved_page();
+}
+
+uint32_t BtreeDirectory::allocate_unreserved_page()
 {
     auto pg = get_start_free_page();
     if (pg == INVALID_PAGE)
@@ -166,12 +197,46 @@ uint32_t BtreeDirectory::allocate_page()
     set_num_free_page(get_num_free_page() - 1);
     set_start_free_page(fp.next);
     if (fp.next != INVALID_PAGE)
+        set_prev_of_first_free_page(INVALID_PAGE);
+    return pg;
+}
+
+void BtreeDirectory::reserve_pages_for_insertion(const Node* n)
+{
+    size_t needed = 0;
+    while (n && n->entries().size() >= BTREE_MAX_NUM_ENTRIES)
     {
-        read_free_page(fp.next, fp);
-        fp.prev = INVALID_PAGE;
-        write_free_page(get_start_free_page(), fp);
+        // A root that splits also needs a new root.
+        needed += n->parent_page_number() == INVALID_PAGE ? 2 : 1;
+        n = retrieve_existing_node(n->parent_page_number());
     }
-    return pg;
+    while (m_reserved_pages.size() < needed)
+        m_reserved_pages.push_back(allocate_unreserved_page());
+}
+
+void BtreeDirectory::load_nodes_for_removal(const Node* n, ptrdiff_t index)
+{
+    if (!n->is_leaf())
+    {
+        n = retrieve_node(n->page_number(), n->children().at(index));
+        while (!n->is_leaf())
+            n = retrieve_node(n->page_number(), n->children().back());
+    }
+    while (n->parent_page_number() != INVALID_PAGE
+           && n->entries().size() <= BTREE_MAX_NUM_ENTRIES / 2)
+    {
+        const Node* parent = retrieve_existing_node(n->parent_page_number());
+        dir_check(parent != nullptr);
+        find_sibling(parent, n);
+        n = parent;
+    }
+}
+
+BtreeDirectory::Node* BtreeDirectory::create_node(uint32_t parent_num, uint32_t num)
+{
+    auto& n = m_node_cache[num];
+    n = make_unique<Node>(parent_num, num);
+    return n.get();
 }
 
 void BtreeDirectory::deallocate_page(uint32_t num)
@@ -188,13 +253,8 @@ void BtreeDirectory::deallocate_page(uint32_t num)
     fp.next = get_start_free_page();
     write_free_page(num, fp);
 
-    auto start = get_start_free_page();
-    if (start != INVALID_PAGE)
-    {
-        read_free_page(start, fp);
-        fp.prev = num;
-        write_free_page(start, fp);
-    }
+    if (get_start_free_page() != INVALID_PAGE)
+        set_prev_of_first_free_page(num);
     set_start_free_page(num);
     set_num_free_page(get_num_free_page() + 1);
 }
@@ -433,6 +493,8 @@ bool BtreeDirectory::add_entry_impl(std::string_view name, const id_type& id, in
             Entry{std::string(name), id, static_cast<uint32_t>(type)});
         return true;
     }
+    // No failure may happen after the tree starts to change.
+    reserve_pages_for_insertion(node);
     insert_and_balance(
         node, Entry{std::string(name), id, static_cast<uint32_t>(type)}, INVALID_PAGE, 0);
     return true;
@@ -460,7 +522,7 @@ void BtreeDirectory::insert_and_balance(BtreeNode* n, Entry e, uint32_t addition
 
     if (n->entries().size() > BTREE_MAX_NUM_ENTRIES)
     {
-        Node* sibling = retrieve_node(n->parent_page_number(), allocate_page());
+        Node* sibling = create_node(n->parent_page_number(), allocate_page());
         auto middle_index = n->entries().size() / 2 - 1;
         e = std::move(n->mutable_entries()[middle_index]);
         if (!n->is_leaf())
@@ -473,7 +535,7 @@ void BtreeDirectory::insert_and_balance(BtreeNode* n, Entry e, uint32_t addition
         if (n->parent_page_number() == INVALID_PAGE)
         {
             auto new_root_page = allocate_page();
-            Node* root = retrieve_node(INVALID_PAGE, new_root_page);
+            Node* root = create_node(INVALID_PAGE, new_root_page);
             root->mutable_children().push_back(n->page_number());
             root->mutable_children().push_back(sibling->page_number());
             root->mutable_entries().push_back(std::move(e));
@@ -514,8 +576,17 @@ void BtreeDirectory::del_node(BtreeNode* n)
 {
     if (!n)
         return;
-    deallocate_page(n->page_number());
-    m_node_cache.erase(n->page_number());
+    auto num = n->page_number();
+    m_node_cache.erase(num);
+    try
+    {
+        deallocate_page(num);
+    }
+    catch (const std::exception& e)
+    {
+        // The entries have already moved elsewhere. Better lose the page than the rebalancing.
+        WARN_LOG("Directory page %u is not reused: %s", num, e.what());
+    }
 }
 
 std::pair<ptrdiff_t, BtreeNode*> BtreeDirectory::find_sibling(const BtreeNode* parent,
@@ -640,6 +711,8 @@ bool BtreeDirectory::remove_entry_impl(std::string_view name, id_type& id, int&
 
     id = e.id;
     type = e.type;
+    // No failure may happen after the tree starts to change.
+    load_nodes_for_removal(node, entry_index);
     auto leaf_node = replace_with_sub_entry(node, entry_index, 0);
     balance_up(leaf_node, 0);
     return true;
@@ -728,16 +801,6 @@ void BtreeDirectory::recursive_iterate(const BtreeNode* n, const Callback& cb, i
         recursive_iterate(retrieve_node(n->page_number(), c), cb, depth + 1);
 }
 
-template <class Callback>
-void BtreeDirectory::mutable_recursive_iterate(BtreeNode* n, const Callback& cb, int depth)
-{
-    dir_check(depth < BTREE_MAX_DEPTH);
-    for (Entry& e : n->mutable_entries())
-        cb(std::move(e));
-    for (uint32_t c : n->children())
-        mutable_recursive_iterate(retrieve_node(n->page_number(), c), cb, depth + 1);
-}
-
 void BtreeDirectory::iterate_over_entries_impl(const BtreeDirectory::callback& cb)
 {
     auto root = get_root_node();
@@ -752,15 +815,29 @@ void BtreeDirectory::rebuild()
         return;
 
     std::vector<DirEntry> entries;
-    entries.reserve(this->m_stream->size() / BLOCK_SIZE * BTREE_MAX_NUM_ENTRIES);
-    mutable_recursive_iterate(root, [&](DirEntry&& e) { entries.push_back(std::move(e)); }, 0);
+    recursive_iterate(
+        root,
+        [&](const std::string& name, const id_type& id, int type)
+        { entries.push_back(DirEntry{name, id, static_cast<uint32_t>(type)}); },
+        0);
+
+    // The new tree grows in memory over the pages of the old one, so that nothing can fail.
+    auto num_pages = static_cast<uint32_t>(m_stream->size() / BLOCK_SIZE);
+    // Lower pages are taken first, from the back.
+    m_reserved_pages.resize(num_pages);
+    for (uint32_t i = 0; i < num_pages; ++i)
+        m_reserved_pages[i] = num_pages - 1 - i;
     clear_cache();    // root is invalid after this line
-    m_stream->resize(0);
     set_num_free_page(0);
     set_start_free_page(INVALID_PAGE);
-    set_root_page(INVALID_PAGE);
+    set_root_page(allocate_page());
+    create_node(INVALID_PAGE, get_root_page())->mutable_entries();
     for (DirEntry& e : entries)
-        add_entry(e.filename, e.id, e.type);
+        add_entry_impl(e.filename, e.id, e.type);
+    // What remains are the last pages.
+    auto excess = static_cast<length_type>(m_reserved_pages.size()) * BLOCK_SIZE;
+    m_reserved_pages.clear();
+    m_stream->resize(m_stream->size() - excess);
 }
 
 bool BtreeDirectory::empty()
diff --git a/sources/btree_dir.h b/sources/btree_dir.h
index 5068b2e..b2c0422 100644
--- a/sources/btree_dir.h
+++ b/sources/btree_dir.h
@@ -117,6 +117,8 @@ private:
 
 private:
     absl::flat_hash_map<uint32_t, std::unique_ptr<Node>> m_node_cache;
+    // Pages set aside so that an operation cannot fail half way for lack of them.
+    std::vector<uint32_t> m_reserved_pages;
 
 private:
     bool read_node(uint32_t, Node&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
@@ -125,6 +127,11 @@ private:
     void write_free_page(uint32_t, const FreePage&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     void deallocate_page(uint32_t) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     uint32_t allocate_page() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    uint32_t allocate_unreserved_page() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    void set_prev_of_first_free_page(uint32_t) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    void reserve_pages_for_insertion(const Node*) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    void load_nodes_for_removal(const Node*, ptrdiff_t index) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    Node* create_node(uint32_t parent_num, uint32_t num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
     Node* retrieve_node(uint32_t parent_num, uint32_t num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     Node* retrieve_existing_node(uint32_t num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
@@ -160,9 +167,6 @@ private:
     template <class Callback>
     void recursive_iterate(const Node* n, const Callback& cb, int depth)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-    template <class Callback>
-    void mutable_recursive_iterate(Node* n, const Callback& cb, int depth)
-        ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
 protected:
     void subflush() override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-- 
2.43.0


From 064de342da3c3c93d13790be8ffb3bb8c27ea886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 31/48] fix: cut stored link targets and attribute values are
 reported, not shown as empty

---
 sources/lite_format.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index a64fc03..621afac 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -117,7 +117,8 @@ size_t XattrCryptor::infer_decrypted_size(size_t encrypted_size)
     {
         return encrypted_size - (iv_size_ + kMacSize);
     }
-    return 0;
+    // Even an empty value is longer than this.
+    throw XattrVerificationException();
 }
 size_t XattrCryptor::infer_encrypted_size(size_t decrypted_size)
 {
@@ -493,7 +494,7 @@ namespace
             base32_decode(tmp.data(), tmp.size(), decoded);
             if (decoded.size() <= kSIVSize)
             {
-                return {};
+                throw InvalidFilenameException(std::string(path));
             }
             tmp.resize(decoded.size() - kSIVSize);
             if (!get_siv().decrypt_and_verify(decoded.data() + kSIVSize,
-- 
2.43.0


From d103f295a3bf833488cc9999c124138e0964ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 32/48] fix: cutting or extending a full-format data file by
 whole blocks is detected

---
 sources/streams.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/sources/streams.cpp b/sources/streams.cpp
index 91c1263..aefcdca 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -325,6 +325,8 @@ namespace internal
         id_type m_id;
         unsigned m_iv_size, m_header_size;
         bool m_check;
+        // Set while the metadata has not followed a change of size.
+        bool m_meta_size_stale = false;
 
     private:
         length_type meta_position_for_iv(offset_type block_num) const noexcept
@@ -341,6 +343,25 @@ namespace internal
 
         const id_type& id() const noexcept { return m_id; }
 
+        void adjust_meta_size(length_type length)
+        {
+            auto block_num = (length + this->m_block_size - 1) / this->m_block_size;
+            m_metastream.resize(meta_position_for_iv(block_num));
+            m_meta_size_stale = false;
+        }
+
+        // The authenticated metadata tells how many blocks there must be, the last of which
+        // authenticates its own length.
+        void check_not_cut() const
+        {
+            auto meta_size = m_metastream.size();
+            if (meta_size <= get_encrypted_header_size())
+                return;
+            auto block_num = (meta_size - get_encrypted_header_size()) / get_meta_size();
+            if (block_num > 0 && m_stream->size() <= (block_num - 1) * m_block_size)
+                throw CorruptedMetaDataException(id(), "Missing data blocks");
+        }
+
     public:
         explicit AESGCMCryptStream(std::shared_ptr<StreamBase> data_stream,
                                    std::shared_ptr<StreamBase> meta_stream,
@@ -364,6 +385,10 @@ namespace internal
             m_dec.SetKeyWithIV(data_key.data(), data_key.size(), null_iv, array_length(null_iv));
             warn_if_key_not_random(data_key, __FILE__, __LINE__);
             warn_if_key_not_random(meta_key, __FILE__, __LINE__);
+            if (m_check)
+            {
+                check_not_cut();
+            }
         }
 
     protected:
@@ -435,6 +460,13 @@ namespace internal
             {
                 throw MessageVerificationException(id(), start_block * m_block_size);
             }
+            auto meta_blocks = meta_read_len / get_meta_size();
+            if (m_check && data_read_len > meta_blocks * m_block_size)
+            {
+                // Only blocks which have metadata were ever written.
+                throw MessageVerificationException(id(),
+                                                   (start_block + meta_blocks) * m_block_size);
+            }
             memset(output, 0, data_buffer_size);
 
             for (length_type i = 0; i < data_read_len;)
@@ -471,8 +503,8 @@ namespace internal
         void adjust_logical_size(length_type length) override
         {
             m_stream->resize(length);
-            auto block_num = (length + this->m_block_size - 1) / this->m_block_size;
-            m_metastream.resize(meta_position_for_iv(block_num));
+            m_meta_size_stale = true;
+            adjust_meta_size(length);
         }
 
     public:
@@ -484,6 +516,8 @@ namespace internal
         void flush() override
         {
             m_stream->flush();
+            if (m_meta_size_stale)
+                adjust_meta_size(m_stream->size());
             m_metastream.flush();
         }
 
@@ -594,12 +628,20 @@ make_cryptstream_aes_gcm(std::shared_ptr<StreamBase> data_stream,
 PaddedStream::PaddedStream(std::shared_ptr<StreamBase> delegate, unsigned padding_size)
     : m_delegate(std::move(delegate)), m_padding_size(padding_size)
 {
-    if (m_delegate->size() < padding_size)
+    auto size = m_delegate->size();
+    if (size < padding_size)
     {
         auto buffer = make_unique_array<byte>(padding_size);
         generate_random(buffer.get(), padding_size);
         m_delegate->write(buffer.get(), 0, padding_size);
     }
+    else if (padding_size > 0 && size == padding_size)
+    {
+        // Nothing else reads the padding of an empty file, so this is where a longer one cut down
+        // to its padding is recognized.
+        auto buffer = make_unique_array<byte>(padding_size);
+        (void)m_delegate->read(buffer.get(), 0, padding_size);
+    }
 }
 
 PaddedStream::~PaddedStream() {}
-- 
2.43.0


From 750dcd1828ee98cf2b224fdb6af1348c65662f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 33/48] fix: a configuration without or with a cut
 authentication code must be rejected

---
 sources/params_io.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/params_io.cpp b/sources/params_io.cpp
index 8d121e3..81ff637 100644
--- a/sources/params_io.cpp
+++ b/sources/params_io.cpp
@@ -201,6 +201,11 @@ DecryptedSecurefsParams decrypt(const LegacySecurefsJsonParams& legacy,
             auto mac = parse_hex(legacy.encrypted_key().mac());
             auto ciphertext = parse_hex(legacy.encrypted_key().ciphertext());
             auto header = get_version_header(legacy.version());
+            if (mac.size() != kParamMacSize)
+            {
+                // A shortened authentication code would authenticate less, or nothing at all.
+                return false;
+            }
 
             CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
             dec.SetKeyWithIV(wrapping_key.data(), wrapping_key.size(), iv.data(), iv.size());
@@ -280,6 +285,11 @@ DecryptedSecurefsParams decrypt(const EncryptedSecurefsParams& encparams,
                                 absl::Span<const byte> password,
                                 /* nullable */ StreamBase* key_stream)
 {
+    if (encparams.mac().size() != kParamMacSize)
+    {
+        // A shortened authentication code would authenticate less, or nothing at all.
+        throw PasswordOrKeyfileIncorrectException();
+    }
     auto wrapping_key = compute_password_derived_key(encparams, password, key_stream);
     CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
     dec.SetKeyWithIV(wrapping_key.data(),
-- 
2.43.0


From 4bec76b049f51e820d776b54416e9bc7c1a2607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 34/48] fix: a configuration must be on disk before it replaces
 the old one; a failed or killed command must not block the next

---
 sources/commands.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 2bf7b62..e325ed2 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -376,13 +376,17 @@ public:
                       {single_pass_holder_.password.data(), single_pass_holder_.password.size()},
                       maybe_open_key_stream(single_pass_holder_.keyfile.getValue()).get())
                   .SerializeAsString();
+        auto config_path = single_pass_holder_.config_path.getValue().empty()
+            ? absl::StrCat(single_pass_holder_.data_dir.getValue(), "/", kConfigFileName)
+            : single_pass_holder_.config_path.getValue();
         auto config_stream = OSService::get_default().open_file_stream(
-            single_pass_holder_.config_path.getValue().empty()
-                ? absl::StrCat(single_pass_holder_.data_dir.getValue(), "/", kConfigFileName)
-                : single_pass_holder_.config_path.getValue(),
-            O_WRONLY | O_EXCL | O_CREAT,
-            0644);
+            config_path, O_WRONLY | O_EXCL | O_CREAT, 0644);
+        DEFER(if (has_uncaught_exceptions()) {
+            // Otherwise the incomplete file would prevent a second attempt.
+            OSService::get_default().remove_file_nothrow(config_path);
+        });
         config_stream->write(encrypted_data.data(), 0, encrypted_data.size());
+        config_stream->fsync();
         return 0;
     }
 
@@ -495,6 +499,7 @@ public:
             OSService::get_default().remove_file_nothrow(tmp_path);
         });
         stream->write(encrypted_data.data(), 0, encrypted_data.size());
+        stream->fsync();
         stream.reset();
         OSService::get_default().rename(tmp_path, original_path);
         return 0;
@@ -1181,13 +1186,17 @@ public:
                       {single_pass_holder_.password.data(), single_pass_holder_.password.size()},
                       maybe_open_key_stream(single_pass_holder_.keyfile.getValue()).get())
                   .SerializeAsString();
-        auto tmp_path = absl::StrCat(real_config_path, ".tmp");
+        byte buffer[16];
+        generate_random(buffer, array_length(buffer));
+        // A fixed name would be taken after a migration that was killed.
+        auto tmp_path = absl::StrCat(real_config_path, hexify(buffer, array_length(buffer)));
         auto stream = OSService::get_default().open_file_stream(
             tmp_path, O_WRONLY | O_CREAT | O_EXCL, 0644);
         DEFER(if (has_uncaught_exceptions()) {
             OSService::get_default().remove_file_nothrow(tmp_path);
         });
         stream->write(encrypted_data.data(), 0, encrypted_data.size());
+        stream->fsync();
         stream.reset();
         OSService::get_default().rename(tmp_path, real_config_path);
         return 0;
-- 
2.43.0


From 40bb1724a85c31bb4273f230a78269b2c607c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 35/48] fix: a long name suffix migration must survive nested
 long names and being killed

---
 sources/lite_format.cpp | 48 +++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 621afac..f5269ed 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -25,6 +25,7 @@
 #include <uni_algo/case.h>
 #include <uni_algo/norm.h>
 
+#include <algorithm>
 #include <array>
 #include <cerrno>
 #include <cstddef>
@@ -333,6 +334,8 @@ namespace
 
     public:
         static constexpr size_t kHashSize = 32;
+        // Length of the Base32 encoding of an encrypted hash.
+        static constexpr size_t kEncodedHashSize = ((kHashSize + kSIVSize) * 8 + 4) / 5;
         static constexpr size_t kComponentSizeInSymlink = 60;
 
         static constexpr std::string_view kLegacyLongNameSuffix = "...";
@@ -1433,28 +1436,55 @@ void change_long_name_suffix(const std::string& data_dir,
                                 }
                             });
 
+    // The directories may have long names themselves, so the deepest must come first.
+    std::sort(dirs_with_long_name_table.begin(),
+              dirs_with_long_name_table.end(),
+              [](const std::string& a, const std::string& b) { return a.size() > b.size(); });
+
     for (const auto& dir : dirs_with_long_name_table)
     {
-        auto full_dir_name = root.norm_path_narrowed(dir);
         auto full_table_file_name
             = root.norm_path_narrowed(absl::StrCat(dir, "/", kLongNameTableFileName));
 
         LongNameLookupTable table(full_table_file_name, false);
         LockGuard<LongNameLookupTable> lg(table);
-        auto hashes = table.list_hashes();
-        for (const auto& hash : hashes)
+        std::vector<std::pair<std::string, std::string>> renames;
+        for (auto&& hash : table.list_hashes())
         {
-            if (!absl::EndsWith(hash, old_suffix))
+            // The length check tells old from already migrated names, even when the new suffix ends
+            // with the old one.
+            if (hash.size() != NewStyleNameTranslator::kEncodedHashSize + old_suffix.size()
+                || !absl::EndsWith(hash, old_suffix))
             {
                 continue;
             }
-            auto new_hash = absl::StrCat(hash.substr(0, hash.size() - old_suffix.size()),
-                                         new_long_name_suffix);
-            auto old_value = table.lookup(hash);
-            table.update_mapping(new_hash, old_value);
+            auto new_hash
+                = absl::StrCat(std::string_view(hash).substr(0, hash.size() - old_suffix.size()),
+                               new_long_name_suffix);
+            renames.emplace_back(std::move(hash), std::move(new_hash));
+        }
+
+        // A migration killed at any point must be repeatable, so as long as not all files are
+        // renamed, the table has entries for both the old and the new names.
+        for (const auto& [hash, new_hash] : renames)
+        {
+            table.update_mapping(new_hash, table.lookup(hash));
+        }
+        table.checkpoint();
+        for (const auto& [hash, new_hash] : renames)
+        {
+            fuse_stat st{};
+            auto old_path = absl::StrCat(dir, "/", hash);
+            if (root.stat(old_path, &st))
+            {
+                root.rename(old_path, absl::StrCat(dir, "/", new_hash));
+            }
+        }
+        for (const auto& [hash, new_hash] : renames)
+        {
             table.remove_mapping(hash);
-            root.rename(absl::StrCat(dir, "/", hash), absl::StrCat(dir, "/", new_hash));
         }
+        table.checkpoint();
     }
 
     mutable_params.mutable_lite_format_params()->set_long_name_suffix(new_long_name_suffix);
-- 
2.43.0


From d809c2c1b70b2325e157a0bdda4facc960ba5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:39 +0000
Subject: [PATCH 36/48] fix: truncating a lite file while opening it must keep
 its header, which other open handles use

---
 sources/lite_format.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index f5269ed..8305726 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1240,6 +1240,12 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
     {
         flags = (flags & ~O_ACCMODE) | O_RDWR;
     }
+    // The header must survive a truncation, as other open handles go on using it.
+    const bool truncate = flags & O_TRUNC;
+    if (truncate)
+    {
+        flags = (flags & ~(O_TRUNC | O_ACCMODE)) | O_RDWR;
+    }
     if ((flags & O_CREAT))
     {
         mode |= S_IRUSR;
@@ -1261,7 +1267,7 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
             fp = std::make_unique<File>(std::move(stream), *opener_);
         });
 
-    if (flags & O_TRUNC)
+    if (truncate)
     {
         LockGuard<File> lock_guard(*fp, true);
         fp->resize(0);
-- 
2.43.0


From ee19116d6c0b33f5ed38377a62a3c5896ce62a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 37/48] fix: a lock file left by a killed process with our own
 process number must not refuse the mount

---
 sources/full_format.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 5ffb0be..2135dfd 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -737,7 +737,9 @@ void RepoLocker::check_lock_file()
         if (!content.empty())
         {
             pid_t pid{};
-            if (absl::SimpleAtoi(content, &pid) && OSService::is_process_running(pid))
+            // A previous holder may have had the same number as we do, but it is gone.
+            if (absl::SimpleAtoi(content, &pid) && pid != OSService::get_current_process_id()
+                && OSService::is_process_running(pid))
             {
                 ERROR_LOG("Failed to acquire lock file %s. Process %d is holding "
                           "the lock.",
-- 
2.43.0


From 1245745084a1e2317b86c6b69d134f92b13028ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 38/48] fix: look whether the lock file is still current only
 once its holder is known to be gone

---
 sources/full_format.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 2135dfd..8189d43 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -726,13 +726,6 @@ void RepoLocker::check_lock_file()
         // Other processes must not look at the file between our look at it and our writing to it.
         stream->lock(true);
         DEFER(stream->unlock());
-        fuse_stat opened{}, current{};
-        stream->fstat(&opened);
-        if (!root_->stat(kLockFileName, &current) || current.st_ino != opened.st_ino)
-        {
-            // Its holder removed it after we had opened it.
-            continue;
-        }
         auto content = stream->as_string();
         if (!content.empty())
         {
@@ -751,6 +744,14 @@ void RepoLocker::check_lock_file()
                      "securefs probably exited abnormally.",
                      root_->norm_path_narrowed(kLockFileName));
         }
+        // A holder removes the file before it exits. Looking only now, when no holder is alive any
+        // more, makes sure that this one is still the lock file.
+        fuse_stat opened{}, current{};
+        stream->fstat(&opened);
+        if (!root_->stat(kLockFileName, &current) || current.st_ino != opened.st_ino)
+        {
+            continue;
+        }
         auto pid = absl::StrCat(OSService::get_current_process_id());
         stream->resize(0);
         stream->write(pid.data(), 0, pid.size());
-- 
2.43.0


From 68a3d672cb6e59173110d3feb5f2c0335af50a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:14 +0000
Subject: [PATCH 39/48] fix: a delayed operation must not set the idle timer
 back

---
 sources/fuse_hook.cpp | 8 +++++++-
 sources/fuse_hook.h   | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/sources/fuse_hook.cpp b/sources/fuse_hook.cpp
index f09aba8..50d4229 100644
--- a/sources/fuse_hook.cpp
+++ b/sources/fuse_hook.cpp
@@ -18,5 +18,11 @@ IdleShutdownHook::IdleShutdownHook(absl::Duration timeout)
     notify_activity();
 }
 
-void IdleShutdownHook::notify_activity() { timer_.setTimePoint(absl::Now() + timeout_); }
+void IdleShutdownHook::notify_activity()
+{
+    // Reading the clock and setting the timer is one step, so that a delayed caller cannot set the
+    // timer back to a time earlier than what a later caller has set.
+    absl::MutexLock ml(&mu_);
+    timer_.setTimePoint(absl::Now() + timeout_);
+}
 }    // namespace securefs
diff --git a/sources/fuse_hook.h b/sources/fuse_hook.h
index 7a058fe..6aeae10 100644
--- a/sources/fuse_hook.h
+++ b/sources/fuse_hook.h
@@ -4,6 +4,9 @@
 #include "object.h"
 #include "resettable_timer.h"
 
+#include <absl/synchronization/mutex.h>
+#include <absl/time/time.h>
+
 #include <memory>
 
 namespace securefs
@@ -28,6 +31,7 @@ public:
 
 private:
     absl::Duration timeout_;
+    absl::Mutex mu_;
     ResettableTimer timer_;
 };
 
-- 
2.43.0


From c326cb952223dd4749e42fe4cbeb12ade6525769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:39 +0000
Subject: [PATCH 40/48] fix: stat of a padded lite file must not use another
 file that took its name meanwhile

---
 sources/lite_format.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 8305726..5862bfd 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -825,8 +825,14 @@ int FuseHighLevelOps::vgetattr(const char* path, fuse_stat* buf, const fuse_cont
                     auto physical_file = root_->open_file_stream(enc_path, O_RDONLY, 0);
                     physical_file->lock(true);
                     DEFER(physical_file->unlock());
-                    auto virtual_file = opener_->open(physical_file);
-                    buf->st_size = virtual_file->size();
+                    fuse_stat opened;
+                    physical_file->fstat(&opened);
+                    if (opened.st_ino == buf->st_ino)
+                    {
+                        auto virtual_file = opener_->open(physical_file);
+                        buf->st_size = virtual_file->size();
+                        return 0;
+                    }
                 }
                 catch (const std::exception& e)
                 {
@@ -836,6 +842,8 @@ int FuseHighLevelOps::vgetattr(const char* path, fuse_stat* buf, const fuse_cont
                               e.what());
                     throw;
                 }
+                // The name stands for another file by now, possibly one without a header yet.
+                return vgetattr(path, buf, ctx);
             }
         }
         break;
-- 
2.43.0


From 7c8db90f9ea4804d56e321fa3bb024883ec1649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 41/48] fix: an unknown --normalization value must be refused
 instead of mounting without normalization

---
 sources/commands.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index e325ed2..6e83432 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -810,6 +810,10 @@ private:
                     mount_options->set_case_fold(true);
                 if (normalization.getValue() == "nfc" || normalization.getValue() == "casefold+nfc")
                     mount_options->set_unicode_normalize_nfc(true);
+                else if (normalization.getValue() != "casefold"
+                         && normalization.getValue() != "none")
+                    throw_runtime_error("Invalid value for --normalization: "
+                                        + normalization.getValue());
             }
             mount_options->set_allow_sensitive_logging(allow_sensitive_logging.getValue());
             mount_options->set_max_idle_seconds(max_idle_seconds.getValue());
-- 
2.43.0


From 164ca753c8846f550c7da7e298b4853790df5f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:19 +0000
Subject: [PATCH 42/48] fix: a lite directory renamed while open must still
 list its long names

---
 sources/lite_format.cpp | 12 ++++++++++++
 sources/lite_format.h   |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 5862bfd..67d28fa 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -709,6 +709,14 @@ namespace
         }
         void rewind() override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this) { under_traverser_->rewind(); }
 
+        void set_path(std::string dir_abs_path) override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
+        {
+            if (dir_abs_path_ == dir_abs_path)
+                return;
+            dir_abs_path_ = std::move(dir_abs_path);
+            long_table_.reset();
+        }
+
     private:
         LongNameLookupTable& lazy_get_table() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
         {
@@ -899,6 +907,10 @@ int FuseHighLevelOps::vreaddir(const char* path,
     auto dir = get_dir_checked(info);
     LockGuard<Directory> lg(*dir);
 
+    // The long names are looked up by path.
+    if (path)
+        dir->set_path(root_->norm_path_narrowed(name_trans_->encrypt_full_path(path, nullptr)));
+
     std::string name;
     fuse_stat st{};
     dir->rewind();
diff --git a/sources/lite_format.h b/sources/lite_format.h
index 4212f21..3d158af 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -124,6 +124,9 @@ public:
     // Redeclare the methods in `DirectoryTraverser` to add thread safe annotations.
     bool next(std::string* name, fuse_stat* st) override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this) = 0;
     void rewind() override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this) = 0;
+
+    // Tells where the directory is now, as it may have been renamed since it was opened.
+    virtual void set_path(std::string dir_abs_path) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this) = 0;
 };
 
 class ABSL_LOCKABLE File final : public Base
-- 
2.43.0


From 0670b5887f16ac0689e1dfb4b81f3923ca7ee227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 43/48] fix: refuse sizes beyond the largest addressable block
 before changing the file

---
 sources/lite_stream.cpp |  2 ++
 sources/lite_stream.h   |  2 ++
 sources/streams.cpp     | 13 ++++++++++++-
 sources/streams.h       |  6 ++++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/sources/lite_stream.cpp b/sources/lite_stream.cpp
index cfb8f3e..8b6d785 100644
--- a/sources/lite_stream.cpp
+++ b/sources/lite_stream.cpp
@@ -265,6 +265,8 @@ void AESGCMCryptStream::adjust_logical_size(length_type length)
                      + (residue > 0 ? residue + get_iv_size() + get_mac_size() : 0));
 }
 
+length_type AESGCMCryptStream::max_size() const noexcept { return MAX_BLOCKS * get_block_size(); }
+
 length_type AESGCMCryptStream::calculate_real_size(length_type underlying_size,
                                                    length_type block_size,
                                                    length_type iv_size) noexcept
diff --git a/sources/lite_stream.h b/sources/lite_stream.h
index 79efb10..0828ae1 100644
--- a/sources/lite_stream.h
+++ b/sources/lite_stream.h
@@ -71,6 +71,8 @@ protected:
 
     void adjust_logical_size(length_type length) override;
 
+    length_type max_size() const noexcept override;
+
 public:
     explicit AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
                                const key_type& master_key,
diff --git a/sources/streams.cpp b/sources/streams.cpp
index aefcdca..24c0ab8 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -205,6 +205,9 @@ void BlockBasedStream::write(const void* input, offset_type offset, length_type
     {
         return;
     }
+    // Refuse before anything changes.
+    if (length > max_size() || offset > max_size() - length)
+        throw StreamTooLongException(max_size(), offset + length);
     auto current_size = this->size();
     if (offset > current_size)
         unchecked_resize(current_size, offset);
@@ -265,7 +268,13 @@ void BlockBasedStream::zero_fill(offset_type offset, offset_type finish)
     unchecked_write(ZeroFillTag(), offset, finish - offset);
 }
 
-void BlockBasedStream::resize(length_type new_size) { unchecked_resize(size(), new_size); }
+void BlockBasedStream::resize(length_type new_size)
+{
+    auto current_size = size();
+    if (new_size > current_size && new_size > max_size())
+        throw StreamTooLongException(max_size(), new_size);
+    unchecked_resize(current_size, new_size);
+}
 
 void BlockBasedStream::unchecked_resize(length_type current_size, length_type new_size)
 {
@@ -500,6 +509,8 @@ namespace internal
             return data_read_len;
         }
 
+        length_type max_size() const noexcept override { return max_block_number * m_block_size; }
+
         void adjust_logical_size(length_type length) override
         {
             m_stream->resize(length);
diff --git a/sources/streams.h b/sources/streams.h
index af20b37..633d746 100644
--- a/sources/streams.h
+++ b/sources/streams.h
@@ -4,6 +4,7 @@
 #include "object.h"
 
 #include <absl/container/fixed_array.h>
+#include <limits>
 #include <memory>
 #include <utility>
 #include <variant>
@@ -107,6 +108,11 @@ protected:
                                     const void* input)
         = 0;
     virtual void adjust_logical_size(length_type length) = 0;
+    // The size beyond which blocks cannot be addressed.
+    virtual length_type max_size() const noexcept
+    {
+        return std::numeric_limits<length_type>::max();
+    }
 
 private:
     struct ZeroFillTag
-- 
2.43.0


From 2e9caef0366af998eb4d6c99ba942dffe172fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:07 +0000
Subject: [PATCH 44/48] fix: discard the incomplete header of a new lite file
 when writing it fails

---
 sources/lite_stream.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sources/lite_stream.cpp b/sources/lite_stream.cpp
index 8b6d785..a8d3d40 100644
--- a/sources/lite_stream.cpp
+++ b/sources/lite_stream.cpp
@@ -111,7 +111,23 @@ AESGCMCryptStream::AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
         std::vector<byte> header(id.begin(), id.end());
         header.insert(
             header.end(), m_auxiliary.begin() + sizeof(std::uint32_t), m_auxiliary.end());
-        m_stream->write(header.data(), 0, header.size());
+        try
+        {
+            m_stream->write(header.data(), 0, header.size());
+        }
+        catch (...)
+        {
+            // The write may have been done partly, for example when the disk becomes full.
+            try
+            {
+                m_stream->resize(0);
+            }
+            catch (const std::exception& e)
+            {
+                ERROR_LOG("Failed to discard an incomplete header: %s", e.what());
+            }
+            throw;
+        }
     }
     else if (rc != id.size())
     {
-- 
2.43.0


From 922ad8113da50c5caf23c42add5194a41f192c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:07 +0000
Subject: [PATCH 45/48] fix: keep metadata that could not be written until they
 can be, so that the data stay readable

---
 sources/streams.cpp | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/sources/streams.cpp b/sources/streams.cpp
index 24c0ab8..6dfbab0 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -9,6 +9,7 @@
 #include <cryptopp/secblockfwd.h>
 #include <cstdint>
 #include <cstring>
+#include <deque>
 #include <memory>
 #include <stdint.h>
 #include <string.h>
@@ -52,6 +53,8 @@ namespace internal
         id_type m_id;
         std::shared_ptr<StreamBase> m_stream;
         bool is_dirty;
+        // What has not been written yet because of a failure, with its positions in m_stream.
+        std::deque<std::pair<offset_type, std::vector<byte>>> m_unwritten;
 
         typedef CryptoPP::HMAC<CryptoPP::SHA256> hmac_calculator_type;
 
@@ -61,6 +64,15 @@ namespace internal
         const id_type& id() const noexcept { return m_id; }
         const key_type& key() const noexcept { return m_key; }
 
+        void write_unwritten()
+        {
+            for (; !m_unwritten.empty(); m_unwritten.pop_front())
+            {
+                auto& [off, bytes] = m_unwritten.front();
+                m_stream->write(bytes.data(), off, bytes.size());
+            }
+        }
+
         void run_mac(CryptoPP::MessageAuthenticationCode& calculator)
         {
             calculator.Update(id().data(), id().size());
@@ -118,6 +130,7 @@ namespace internal
         {
             if (!is_dirty)
                 return;
+            write_unwritten();
             hmac_calculator_type calculator;
             calculator.SetKey(key().data(), key().size());
             run_mac(calculator);
@@ -138,19 +151,38 @@ namespace internal
 
         length_type read(void* output, offset_type off, length_type len) override
         {
-            return m_stream->read(output, off + hmac_length, len);
+            off += hmac_length;
+            auto* out = static_cast<byte*>(output);
+            auto rc = m_stream->read(output, off, len);
+            for (auto&& [position, bytes] : m_unwritten)
+            {
+                auto start = std::max(off, position);
+                auto end = std::min(off + len, position + bytes.size());
+                if (start >= end)
+                    continue;
+                if (off + rc < start)
+                    memset(out + rc, 0, start - off - rc);
+                memcpy(out + (start - off), bytes.data() + (start - position), end - start);
+                rc = std::max(rc, end - off);
+            }
+            return rc;
         }
 
+        // The data that the metadata belong to have been changed before, and cannot be read any
+        // more without them, so that what cannot be written now must be written later.
         void write(const void* input, offset_type off, length_type len) override
         {
-            m_stream->write(input, off + hmac_length, len);
+            auto* bytes = static_cast<const byte*>(input);
+            m_unwritten.emplace_back(off + hmac_length, std::vector<byte>(bytes, bytes + len));
             is_dirty = true;
+            write_unwritten();
         }
 
         void resize(length_type len) override
         {
-            m_stream->resize(len + hmac_length);
+            write_unwritten();
             is_dirty = true;
+            m_stream->resize(len + hmac_length);
         }
 
         bool is_sparse() const noexcept override { return m_stream->is_sparse(); }
-- 
2.43.0


From adc041a058442552f9da95eb8aeff7d6a2f56e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:07 +0000
Subject: [PATCH 46/48] fix: clear the lock file when our process number could
 not be written completely

---
 sources/full_format.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 8189d43..08151d3 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -754,7 +754,23 @@ void RepoLocker::check_lock_file()
         }
         auto pid = absl::StrCat(OSService::get_current_process_id());
         stream->resize(0);
-        stream->write(pid.data(), 0, pid.size());
+        try
+        {
+            stream->write(pid.data(), 0, pid.size());
+        }
+        catch (...)
+        {
+            // Part of our number may be that of another process.
+            try
+            {
+                stream->resize(0);
+            }
+            catch (const std::exception& e)
+            {
+                ERROR_LOG("Failed to clear the lock file: %s", e.what());
+            }
+            throw;
+        }
         lock_stream_ = stream;
         return;
     }
-- 
2.43.0


From 5a86c9ca3103e8f8990d1ddf738357cb11a77371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:46 +0000
Subject: [PATCH 47/48] fix: an error while lite rmdir discards the table of
 long names must not show as a directory which is not empty

---
 sources/lite_format.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 67d28fa..17b1fc8 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1332,7 +1332,17 @@ void FuseHighLevelOps::discard_long_name_table_of_empty_dir(const std::string& e
     }
     for (const auto& file : to_remove)
     {
-        root_->remove_file_nothrow(file);
+        try
+        {
+            root_->remove_file(file);
+        }
+        catch (const ExceptionBase& e)
+        {
+            // Another process may have removed it. Anything else must not look like a directory
+            // which is not empty.
+            if (e.error_number() != ENOENT)
+                throw;
+        }
     }
 }
 std::string FuseHighLevelOps::long_name_table_file_name(absl::string_view enc_path)
-- 
2.43.0


From 8813cc43ca72c0899fe88bbb9314a3044ac15ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:17 +0000
Subject: [PATCH 48/48] fix: --noflock must also hold in the process which
 mounts in the background

---
 protos/params.proto        | 1 +
 sources/commands.cpp       | 1 +
 sources/internal_mount.cpp | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/protos/params.proto b/protos/params.proto
index 2415490..da5e41a 100644
--- a/protos/params.proto
+++ b/protos/params.proto
@@ -97,6 +97,7 @@ message MountOptions
     bool plain_text_names = 8;
     bool allow_sensitive_logging = 9;
     int64 max_idle_seconds = 10;
+    bool disable_file_lock = 11;
 }
 
 message InternalMountData
diff --git a/sources/commands.cpp b/sources/commands.cpp
index 6e83432..8ab63c7 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -817,6 +817,7 @@ private:
             }
             mount_options->set_allow_sensitive_logging(allow_sensitive_logging.getValue());
             mount_options->set_max_idle_seconds(max_idle_seconds.getValue());
+            mount_options->set_disable_file_lock(noflock.getValue());
         }
 
         std::vector<std::string> fuse_args{
diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index 3e8e744..4d4b7b0 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -7,6 +7,7 @@
 #include "fuse_high_level_ops_base.h"
 #include "fuse_hook.h"
 #include "lite_format.h"
+#include "lock_enabled.h"
 #include "logger.h"
 #include "platform.h"
 #include "tags.h"
@@ -297,6 +298,8 @@ int internal_mount(const InternalMountData& mount_data)
             }
         }
     }
+    // The process which parsed the command line may be another one than this.
+    set_lock_enabled(!mount_data.mount_options().disable_file_lock());
     try
     {
         auto fd_limit = OSService::raise_fd_limit();
-- 
2.43.0

