From b89fbb32924f20672bf1659769d7a6cf8b172930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 01/36] fix: StructuredDataVersions swap resets the parents of
 swapped orphans

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 4b3c0a2..86e3d3b 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -757,11 +757,11 @@ void swap(StructuredDataVersions& lhs, StructuredDataVersions& rhs) MAIDSAFE_NOE
   swap(lhs.orphans_, rhs.orphans_);
   for (const auto& lhs_orphans : lhs.orphans_) {
     for (auto lhs_orphan : lhs_orphans.second)
-      lhs_orphan->second->parent == std::end(lhs.versions_);
+      lhs_orphan->second->parent = std::end(lhs.versions_);
   }
   for (const auto& rhs_orphans : rhs.orphans_) {
     for (auto rhs_orphan : rhs_orphans.second)
-      rhs_orphan->second->parent == std::end(rhs.versions_);
+      rhs_orphan->second->parent = std::end(rhs.versions_);
   }
 }
 
-- 
2.43.0


From a674cfe14b1d8bb9fc05e8b8caaf7a8029aebe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 02/36] fix: StructuredDataVersions detects every circular
 chain of versions

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 86e3d3b..0731bab 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -308,7 +308,8 @@ void StructuredDataVersions::ApplyBranch(VersionName parent, VersionsItr itr,
 
 boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put(
     const VersionName& old_version, const VersionName& new_version) {
-  if (!new_version.id.IsInitialised())
+  // A version which is its own parent would also be a circular chain.
+  if (!new_version.id.IsInitialised() || new_version == old_version)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
 
   if (NewVersionPreExists(old_version, new_version))
@@ -427,11 +428,11 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
   return std::async([this, itr, &version]() {
     VersionsItr versions_itr(itr);
     while (versions_itr != std::end(versions_)) {
+      if (versions_itr->first == version)
+        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       auto child_itr(std::begin(versions_itr->second->children));
       if (child_itr == std::end(versions_itr->second->children))
         return;
-      if ((*child_itr)->first == version)
-        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       std::vector<std::future<void>> check_futures;
       while (++child_itr != std::end(versions_itr->second->children))
         check_futures.emplace_back(CheckVersionNotInBranch(*child_itr, version));
-- 
2.43.0


From 8c1a2a995ba8daa9ebc61e2e205194ebe06e9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 03/36] fix: StructuredDataVersions branch limit with a new
 root or an unorphaned root

---
 .../common/data_types/structured_data_versions.cc      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 0731bab..e8c5c21 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -336,12 +336,14 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
   }
 
-  // Handle case where we're about to exceed 'max_versions_'.
+  // Handle case where we're about to exceed 'max_versions_', or where a new root would exceed
+  // 'max_branches_'.
   bool erase_existing_root(false);
-  if (AtVersionsLimit()) {
+  const bool exceeds_branches(AtBranchesLimit() && version.second->children.empty());
+  if (AtVersionsLimit() || (is_root && exceeds_branches)) {
     if (unorphans_existing_root || is_root)
       // This new version would become 'root_', only to be immediately erased to bring version count
-      // back down to 'max_versions_'.
+      // back down to 'max_versions_' (or branch count down to 'max_branches_').
       return boost::make_optional(new_version);
     erase_existing_root = true;
   }
@@ -446,7 +448,7 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
 void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_orphan,
                                               size_t unorphaned_count,
                                               bool& erase_existing_root) const {
-  if (AtBranchesLimit() && unorphaned_count == 0) {
+  if (AtBranchesLimit() && unorphaned_count == 0 && version.second->children.empty()) {
     if (is_orphan || !version.second->parent->second->children.empty()) {
       // We're going to exceed limit - see if deleting 'root_' helps
       bool root_is_tip_of_tree(root_.second != std::end(versions_) &&
-- 
2.43.0


From b49c4cc73c29a02b91b609582e285dd4ccdb3d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 04/36] fix: StructuredDataVersions::ApplySerialised on an
 empty object

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index e8c5c21..321a8ba 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -281,7 +281,8 @@ void StructuredDataVersions::BranchToCereal(
 
 void StructuredDataVersions::ApplySerialised(const serialised_type& serialised_data_versions) {
   StructuredDataVersions new_info(serialised_data_versions);
-  ApplyBranch(root_.first, root_.second, new_info);
+  if (root_.second != std::end(versions_))
+    ApplyBranch(root_.first, root_.second, new_info);
   for (const auto& orphan_set : orphans_) {
     for (const auto& orphan : orphan_set.second)
       ApplyBranch(orphan_set.first, orphan, new_info);
-- 
2.43.0


From 9bcc714a74f95d49f5f77196c432a47c25759335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 05/36] fix: StructuredDataVersions replaces its root with the
 lowest orphan

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 321a8ba..fbe23bc 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -564,6 +564,11 @@ void StructuredDataVersions::ReplaceRootFromOrphans() {
   assert(!orphans_.empty());
   OrphanItr orphan_itr(
       std::make_pair(std::begin(orphans_), std::begin(std::begin(orphans_)->second)));
+  // 'orphans_' is sorted by absent parent - find the orphan with the lowest VersionName.
+  for (auto itr(std::begin(orphans_)); itr != std::end(orphans_); ++itr) {
+    if ((*std::begin(itr->second))->first < (*orphan_itr.second)->first)
+      orphan_itr = std::make_pair(itr, std::begin(itr->second));
+  }
   versions_.erase(root_.second);
   root_.first = orphan_itr.first->first;
   root_.second = *orphan_itr.second;
-- 
2.43.0


From fd329b0d7e47e960a0a968729899c1dfebf6f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 06/36] fix: StructuredDataVersions rejects a serialised branch
 without names

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index fbe23bc..f77832f 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -180,6 +180,8 @@ void StructuredDataVersions::BranchFromCereal(
 
   // Handle first version in branch
   auto& serialised_branch(serialised_versions.branches[serialised_branch_index]);
+  if (serialised_branch.names.empty())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
   auto forking_child_count(serialised_branch.names.front().forking_child_count);
   auto itr(HandleFirstVersionInBranchFromCereal(parent_itr, serialised_branch));
 
-- 
2.43.0


From 7ad17afc6c22f63e0febba5aff5c9eddb967137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 07/36] fix: StructuredDataVersions rejects a serialised absent
 parent which is present

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index f77832f..d79ec0a 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -151,6 +151,13 @@ StructuredDataVersions::StructuredDataVersions(const serialised_type& serialised
 
   if (versions_.size() > max_versions_ || tips_of_trees_.size() > max_branches_)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
+
+  // A parent which is named as absent mustn't be one of the versions.
+  bool parent_found(versions_.count(root_.first) != 0);
+  for (const auto& orphan_set : orphans_)
+    parent_found = parent_found || versions_.count(orphan_set.first) != 0;
+  if (parent_found)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
 }
 
 StructuredDataVersions::serialised_type StructuredDataVersions::Serialise() const {
-- 
2.43.0


From 387327bd282217de40052fd5ffec9befbee480fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:02 +0000
Subject: [PATCH 08/36] fix: DataBuffer copies a value re-stored while its
 predecessor was being copied to disk

---
 src/maidsafe/common/data_buffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5d1ccd1..d87b0a5 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -387,7 +387,8 @@ void DataBuffer::CopyQueueToDisk() {
       StoreOnDisk(key, value, std::move(disk_store_lock));
       memory_store_lock.lock();
       itr = Find(memory_store_, key);
-      if (itr != memory_store_.index.end())
+      // If the value was deleted while being copied, the key may since have been given a new value.
+      if (itr != memory_store_.index.end() && (*itr).also_on_disk == StoringState::kStarted)
         (*itr).also_on_disk = StoringState::kCompleted;
     }
     memory_store_.cond_var.notify_all();
-- 
2.43.0


From 4114ed5d60327991076125cf1c80748553566313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:02 +0000
Subject: [PATCH 09/36] fix: DataBuffer::Delete by predicate removes the files
 and gives their space back

---
 src/maidsafe/common/data_buffer.cc | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index d87b0a5..31af6f5 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -292,13 +292,26 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
     if (memory_store_.index.size() != before_size)
       memory_store_.cond_var.notify_all();
   }
-  std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-  auto before_size(disk_store_.index.size());
-  disk_store_.index.erase(
-      std::remove_if(std::begin(disk_store_.index), std::end(disk_store_.index),
-                     [&](const DiskElement& item) { return predicate(item.key); }),
-      std::end(disk_store_.index));
-  if (disk_store_.index.size() != before_size)
+  bool changed(false);
+  {
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
+    auto itr(std::begin(disk_store_.index));
+    while (itr != std::end(disk_store_.index)) {
+      if ((*itr).state == StoringState::kCancelled || !predicate((*itr).key)) {
+        ++itr;
+        continue;
+      }
+      changed = true;
+      if ((*itr).state == StoringState::kStarted) {
+        (*itr).state = StoringState::kCancelled;
+        ++itr;
+      } else {
+        RemoveFile((*itr).key, nullptr);
+        itr = disk_store_.index.erase(itr);
+      }
+    }
+  }
+  if (changed)
     disk_store_.cond_var.notify_all();
 }
 
-- 
2.43.0


From 09f1eecee8ad280d3b7834d9bc8c2a8c3389b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 10/36] fix: DataBuffer tracks each value waiting to be stored
 on disk rather than its key

A wait which ended because space became available didn't notice that it had
been cancelled, and waits for one key mistook each other's entries.
---
 include/maidsafe/common/data_buffer.h | 15 +++---
 src/maidsafe/common/data_buffer.cc    | 74 +++++++++++----------------
 2 files changed, 38 insertions(+), 51 deletions(-)

diff --git a/include/maidsafe/common/data_buffer.h b/include/maidsafe/common/data_buffer.h
index bcac0bc..1fa690d 100644
--- a/include/maidsafe/common/data_buffer.h
+++ b/include/maidsafe/common/data_buffer.h
@@ -25,7 +25,7 @@
 #include <deque>
 #include <functional>
 #include <future>
-#include <map>
+#include <list>
 #include <mutex>
 #include <string>
 
@@ -118,11 +118,13 @@ class DataBuffer {
   using MemoryIndex = std::deque<MemoryElement>;
 
   struct DiskElement {
-    explicit DiskElement(KeyType key_in) : key(std::move(key_in)), state(StoringState::kStarted) {}
+    DiskElement(KeyType key_in, const NonEmptyString& value_in)
+        : key(std::move(key_in)), value(&value_in), state(StoringState::kStarted) {}
     KeyType key;
+    const NonEmptyString* value;  // only valid while being stored
     StoringState state;
   };
-  using DiskIndex = std::deque<DiskElement>;
+  using DiskIndex = std::list<DiskElement>;
 
   void Init();
 
@@ -131,8 +133,8 @@ class DataBuffer {
                             std::unique_lock<std::mutex>& memory_store_lock);
   void StoreOnDisk(const KeyType& key, const NonEmptyString& value,
                    std::unique_lock<std::mutex>&& disk_store_lock);
-  void WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
-                          std::unique_lock<std::mutex>& disk_store_lock, bool& cancelled);
+  void WaitForSpaceOnDisk(DiskIndex::iterator itr, std::unique_lock<std::mutex>& disk_store_lock,
+                          bool& cancelled);
   void DeleteFromMemory(const KeyType& key, StoringState& also_on_disk);
   void DeleteFromDisk(const KeyType& key);
   void RemoveFile(const KeyType& key, NonEmptyString* value);
@@ -152,7 +154,7 @@ class DataBuffer {
   MemoryIndex::iterator FindMemoryRemovalCandidate(
       uint64_t required_space, std::unique_lock<std::mutex>& memory_store_lock);
 
-  DiskIndex::iterator FindStartedToStoreOnDisk(const KeyType& key);
+  DiskIndex::iterator FindNotCancelled(const KeyType& key);
   DiskIndex::iterator FindOldestOnDisk();
 
   DiskIndex::iterator FindAndThrowIfCancelled(const KeyType& key);
@@ -164,7 +166,6 @@ class DataBuffer {
   const PopFunctor kPopFunctor_;
   const boost::filesystem::path kDiskBuffer_;
   const bool kShouldRemoveRoot_;
-  std::map<KeyType, const NonEmptyString*> elements_being_moved_to_disk_{};
   std::atomic<bool> running_{true};
   std::mutex worker_mutex_{};
   std::future<void> worker_{};
diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 31af6f5..a5bf2cb 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -174,64 +174,58 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
     StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
-  disk_store_.index.emplace_back(key);
+  auto itr(disk_store_.index.emplace(disk_store_.index.end(), key, value));
 
   bool cancelled(false);
-  WaitForSpaceOnDisk(key, &value, disk_store_lock, cancelled);
-  if (!running_)
+  WaitForSpaceOnDisk(itr, disk_store_lock, cancelled);
+  if (!running_) {
+    disk_store_.index.erase(itr);
     return;
+  }
 
-  if (!cancelled) {
+  if (cancelled) {
+    disk_store_.index.erase(itr);
+  } else {
     if (!WriteFile(GetFilename(key), value.string())) {
       LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
+      disk_store_.index.erase(itr);
       StopRunning();
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
     }
-    auto itr(FindStartedToStoreOnDisk(key));
-    if (itr != disk_store_.index.end())
-      (*itr).state = StoringState::kCompleted;
-
+    (*itr).state = StoringState::kCompleted;
+    (*itr).value = nullptr;
     disk_store_.current.data += value.string().size();
   }
   disk_store_lock.unlock();
   disk_store_.cond_var.notify_all();
 }
 
-void DataBuffer::WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
+void DataBuffer::WaitForSpaceOnDisk(DiskIndex::iterator itr,
                                     std::unique_lock<std::mutex>& disk_store_lock,
                                     bool& cancelled) {
-  while (!HasSpace(disk_store_, value->string().size()) && running_) {
-    auto itr(Find(disk_store_, key));
-    if (itr == disk_store_.index.end()) {
+  while (running_) {
+    if ((*itr).state == StoringState::kCancelled) {
       cancelled = true;
       return;
     }
 
-    if ((*itr).state == StoringState::kCancelled) {
-      disk_store_.index.erase(itr);
-      cancelled = true;
+    if (HasSpace(disk_store_, (*itr).value->string().size()))
       return;
-    }
 
     if (kPopFunctor_) {
-      itr = FindOldestOnDisk();
-      assert((*itr).state != StoringState::kStarted);
-      if ((*itr).state == StoringState::kCompleted) {
-        KeyType oldest_key(itr->key);
+      auto oldest_itr(FindOldestOnDisk());
+      assert((*oldest_itr).state != StoringState::kStarted);
+      if ((*oldest_itr).state == StoringState::kCompleted) {
+        KeyType oldest_key(oldest_itr->key);
         NonEmptyString oldest_value;
         RemoveFile(oldest_key, &oldest_value);
-        disk_store_.index.erase(itr);
+        disk_store_.index.erase(oldest_itr);
         kPopFunctor_(oldest_key, oldest_value);
       }
     } else {
-      // Rely on client of this class to call Delete until enough space becomes available.  Make the
-      // current value available for 'Get' (avoid 'Get' permanent blocking) by adding to
-      // 'elements_being_moved_to_disk_'.
-      if (running_) {
-        elements_being_moved_to_disk_[key] = value;
-        disk_store_.cond_var.wait(disk_store_lock);
-        elements_being_moved_to_disk_.erase(key);
-      }
+      // Rely on client of this class to call Delete until enough space becomes available.  The
+      // current value is meanwhile available for 'Get' through its element in the disk index.
+      disk_store_.cond_var.wait(disk_store_lock);
     }
   }
 }
@@ -246,16 +240,8 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
   }
   std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
   auto itr(FindAndThrowIfCancelled(key));
-  if ((*itr).state == StoringState::kStarted) {
-    auto temp_itr(elements_being_moved_to_disk_.find(key));
-    if (temp_itr != std::end(elements_being_moved_to_disk_))
-      return *temp_itr->second;
-    disk_store_.cond_var.wait(disk_store_lock, [this, &key]() -> bool {
-      auto itr(Find(disk_store_, key));
-      return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted);
-    });
-    itr = FindAndThrowIfCancelled(key);
-  }
+  if ((*itr).state == StoringState::kStarted)
+    return *(*itr).value;
   auto result(ReadFile(GetFilename(key)));
   if (result)
     return NonEmptyString(*result);
@@ -337,7 +323,7 @@ void DataBuffer::DeleteFromMemory(const KeyType& key, StoringState& also_on_disk
 void DataBuffer::DeleteFromDisk(const KeyType& key) {
   {
     std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-    auto itr(Find(disk_store_, key));
+    auto itr(FindNotCancelled(key));
     if (itr == disk_store_.index.end()) {
       LOG(kWarning) << DebugKeyName(key) << " is not in the disk index.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
@@ -491,18 +477,18 @@ DataBuffer::MemoryIndex::iterator DataBuffer::FindMemoryRemovalCandidate(
   return itr;
 }
 
-DataBuffer::DiskIndex::iterator DataBuffer::FindStartedToStoreOnDisk(const KeyType& key) {
+DataBuffer::DiskIndex::iterator DataBuffer::FindNotCancelled(const KeyType& key) {
   return std::find_if(disk_store_.index.begin(), disk_store_.index.end(),
                       [&key](const DiskElement& entry) {
-    return entry.state == StoringState::kStarted && entry.key == key;
+    return entry.state != StoringState::kCancelled && entry.key == key;
   });
 }
 
 DataBuffer::DiskIndex::iterator DataBuffer::FindOldestOnDisk() { return disk_store_.index.begin(); }
 
 DataBuffer::DiskIndex::iterator DataBuffer::FindAndThrowIfCancelled(const KeyType& key) {
-  auto itr(Find(disk_store_, key));
-  if (itr == disk_store_.index.end() || (*itr).state == StoringState::kCancelled) {
+  auto itr(FindNotCancelled(key));
+  if (itr == disk_store_.index.end()) {
     LOG(kWarning) << DebugKeyName(key) << " is not in the disk index or is cancelled.";
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
   }
-- 
2.43.0


From def2ae3c247b30d1db7b5932132fdab109f6fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 11/36] fix: DataBuffer releases every blocked call when it
 stops running

---
 src/maidsafe/common/data_buffer.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index a5bf2cb..a40428d 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -136,6 +136,7 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
     WaitForSpaceInMemory(required_space, memory_store_lock);
 
     if (!running_) {
+      memory_store_lock.unlock();  // the worker needs it to finish
       {
         std::lock_guard<std::mutex> worker_lock(worker_mutex_);
         if (worker_.valid())
@@ -171,6 +172,7 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   if (value.string().size() > disk_store_.max) {
     LOG(kError) << "Cannot store " << DebugKeyName(key) << " since its " << value.string().size()
                 << " bytes exceeds max of " << disk_store_.max << " bytes.";
+    disk_store_lock.unlock();
     StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
@@ -189,6 +191,7 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
     if (!WriteFile(GetFilename(key), value.string())) {
       LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
       disk_store_.index.erase(itr);
+      disk_store_lock.unlock();
       StopRunning();
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
     }
@@ -408,7 +411,13 @@ void DataBuffer::CheckWorkerIsStillRunning() {
 }
 
 void DataBuffer::StopRunning() {
-  running_ = false;
+  {
+    // Hold the locks so that no thread misses the notification between its check and its wait.
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
+    running_ = false;
+  }
   memory_store_.cond_var.notify_all();
   disk_store_.cond_var.notify_all();
 }
-- 
2.43.0


From 5c26874b28b9a3d08ab6611251717c4ddbce52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:18 +0000
Subject: [PATCH 12/36] fix: DataBuffer checks a changed limit against the
 other one while holding both locks

---
 src/maidsafe/common/data_buffer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index a40428d..f29558c 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -428,7 +428,9 @@ fs::path DataBuffer::GetFilename(const KeyType& key) const {
 
 void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
   {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (max_memory_usage > disk_store_.max) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
@@ -441,7 +443,9 @@ void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
 void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
   bool increased(false);
   {
-    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (memory_store_.max > max_disk_usage) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-- 
2.43.0


From 7833eee53edadea8ffc42d05f53e19d8eb430243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:45 +0000
Subject: [PATCH 13/36] fix: IoService::Stop refused on one of its own threads
 leaves the thread count alone

---
 include/maidsafe/common/asio_service.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index e99028d..3345927 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -83,7 +83,6 @@ IoService<IoServiceType>::IoService(size_t thread_count)
 
 template <typename IoServiceType>
 void IoService<IoServiceType>::Stop() {
-  thread_count_ = 0U;
   std::lock_guard<std::mutex> lock{mutex_};
   if (!work_)
     return;
@@ -92,6 +91,7 @@ void IoService<IoServiceType>::Stop() {
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
   }
 
+  thread_count_ = 0U;
   work_.reset();
 
   for (auto& asio_thread : threads_) {
-- 
2.43.0


From 7100d8cf5711c153834c48462f982204bf720be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:20 +0000
Subject: [PATCH 14/36] fix: IoService::Stop on one of its own threads can't
 deadlock with a Stop elsewhere

---
 include/maidsafe/common/asio_service.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index 3345927..c8a6a81 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -24,6 +24,7 @@
 #include <cstdint>
 #include <memory>
 #include <mutex>
+#include <set>
 #include <thread>
 #include <vector>
 
@@ -51,6 +52,8 @@ class IoService {
   std::unique_ptr<typename IoServiceType::work> work_;
   std::vector<std::thread> threads_;
   mutable std::mutex mutex_;
+  std::set<std::thread::id> running_;
+  std::mutex running_mutex_;
 };
 
 using AsioService = IoService<asio::io_service>;
@@ -64,11 +67,17 @@ IoService<IoServiceType>::IoService(size_t thread_count)
       service_(),
       work_(make_unique<typename IoServiceType::work>(service_)),
       threads_(),
-      mutex_() {
+      mutex_(),
+      running_(),
+      running_mutex_() {
   if (thread_count == 0)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
   for (size_t i(0); i != thread_count; ++i)
     threads_.emplace_back([&] {
+      {
+        std::lock_guard<std::mutex> lock{running_mutex_};
+        running_.insert(std::this_thread::get_id());
+      }
       try {
         service_.run();
       } catch (...) {
@@ -78,18 +87,23 @@ IoService<IoServiceType>::IoService(size_t thread_count)
         assert(0);
         throw;
       }
+      std::lock_guard<std::mutex> lock{running_mutex_};
+      running_.erase(std::this_thread::get_id());
     });
 }
 
 template <typename IoServiceType>
 void IoService<IoServiceType>::Stop() {
+  {
+    // Checked before taking 'mutex_', which a call from elsewhere holds while joining this thread.
+    std::lock_guard<std::mutex> lock{running_mutex_};
+    if (running_.count(std::this_thread::get_id()) != 0)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
+  }
+
   std::lock_guard<std::mutex> lock{mutex_};
   if (!work_)
     return;
-  for (const auto& asio_thread : threads_) {
-    if (std::this_thread::get_id() == asio_thread.get_id())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
-  }
 
   thread_count_ = 0U;
   work_.reset();
-- 
2.43.0


From 3d313cbcb60bbf51dc6878c54e09edbc0e1531e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:05 +0000
Subject: [PATCH 15/36] fix: tcp::Connection delivers no message after
 reporting that it has closed

---
 src/maidsafe/common/tcp/connection.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 34f195e..64f4a9f 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -151,8 +151,11 @@ void Connection::ReadData() {
                      // Dispatch the message outside the strand.
                      Message data{std::begin(this_ptr->receiving_message_.data_buffer),
                                       std::end(this_ptr->receiving_message_.data_buffer)};
-                     asio::post(this_ptr->strand_,
-                                [=] { this_ptr->on_message_received_(std::move(data)); });
+                     asio::post(this_ptr->strand_, [=] {
+                       // No message may follow the report that the connection has closed.
+                       if (this_ptr->socket_.is_open())
+                         this_ptr->on_message_received_(std::move(data));
+                     });
                      asio::dispatch(this_ptr->strand_, [this_ptr] { this_ptr->ReadSize(); });
                    }));
 }
-- 
2.43.0


From 895f37f41de67bb5d64803ee5bcf0a4029df9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 16/36] fix: tcp::Connection handles a message's size on its
 strand like everything else

---
 src/maidsafe/common/tcp/connection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 64f4a9f..79294f6 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -110,7 +110,7 @@ void Connection::DoClose() {
 void Connection::ReadSize() {
   ConnectionPtr this_ptr{shared_from_this()};
   asio::async_read(socket_, asio::buffer(receiving_message_.size_buffer),
-                   [this_ptr](const std::error_code& ec, size_t bytes_transferred) {
+                   strand_.wrap([this_ptr](const std::error_code& ec, size_t bytes_transferred) {
     if (ec) {
       LOG(kInfo) << ec.message();
       return this_ptr->DoClose();
@@ -134,7 +134,7 @@ void Connection::ReadSize() {
 
     this_ptr->receiving_message_.data_buffer.resize(data_size);
     this_ptr->ReadData();
-  });
+  }));
 }
 
 void Connection::ReadData() {
-- 
2.43.0


From 8edb5a6416b2ec20b3d870b3b06daf5b34f74120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:09 +0000
Subject: [PATCH 17/36] fix: tcp::Listener::StopListening closes the acceptor
 on the strand and keeps the listener alive

---
 src/maidsafe/common/tcp/listener.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 4468c5f..dbdbae5 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -131,7 +131,8 @@ void Listener::HandleAccept(ConnectionPtr accepted_connection, const std::error_
 }
 
 void Listener::StopListening() {
-  asio::post(strand_.context().get_executor(), [this] { DoStopListening(); });
+  ListenerPtr this_ptr{shared_from_this()};
+  asio::post(strand_, [this_ptr] { this_ptr->DoStopListening(); });
 }
 
 void Listener::DoStopListening() {
-- 
2.43.0


From 40f3d0b1559a9b8f950a135dd57b772d3aaa67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 18/36] fix: hex decoding handles upper-case digits and refuses
 other characters

---
 include/maidsafe/common/encode.h |  6 ------
 src/maidsafe/common/encode.cc    | 14 ++++++++++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/maidsafe/common/encode.h b/include/maidsafe/common/encode.h
index 56069b6..ae095a8 100644
--- a/include/maidsafe/common/encode.h
+++ b/include/maidsafe/common/encode.h
@@ -40,12 +40,6 @@ namespace detail {
 
 const unsigned char alphabet[] = "0123456789abcdef";
 
-const unsigned char lookup[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,  0,  0,  0,  0,  0, 0, 0,
-                                0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,  0,  0,  0,  0,  0, 0, 0,
-                                0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7,  8,  9,  0,  0,  0, 0, 0,
-                                0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,  0,  0,  0,  0,  0, 0, 0,
-                                0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 11, 12, 13, 14, 15};
-
 }  // namespace detail
 
 template <typename T>
diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 9667dc5..17d9fd5 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -39,6 +39,16 @@ namespace hex {
 
 namespace {
 
+unsigned char DigitValue(char digit) {
+  if (digit >= '0' && digit <= '9')
+    return static_cast<unsigned char>(digit - '0');
+  if (digit >= 'a' && digit <= 'f')
+    return static_cast<unsigned char>(digit - 'a' + 10);
+  if (digit >= 'A' && digit <= 'F')
+    return static_cast<unsigned char>(digit - 'A' + 10);
+  BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
+}
+
 template <typename T>
 T Decode(const std::string& hex_input) {
   auto size(hex_input.size());
@@ -47,8 +57,8 @@ T Decode(const std::string& hex_input) {
 
   T non_hex_output(size / 2, 0);
   for (size_t i(0), j(0); i != size / 2; ++i) {
-    non_hex_output[i] = (detail::lookup[static_cast<int>(hex_input[j++])] << 4);
-    non_hex_output[i] |= detail::lookup[static_cast<int>(hex_input[j++])];
+    non_hex_output[i] = (DigitValue(hex_input[j++]) << 4);
+    non_hex_output[i] |= DigitValue(hex_input[j++]);
   }
   return non_hex_output;
 }
-- 
2.43.0


From 447a6360a2107a921c557cd75bc1df22bbb02b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 19/36] fix: base64 decoding refuses a character after padding

---
 src/maidsafe/common/encode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 17d9fd5..7735485 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -118,6 +118,8 @@ T Decode(const std::string& base64_input) {
             decoded_bytes.push_back((temp >> 8) & 0x000000FF);
             return decoded_bytes;
           case 2:  // Two pad characters
+            if (*(cursor + 1) != detail::pad_character)
+              BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
             decoded_bytes.push_back((temp >> 10) & 0x000000FF);
             return decoded_bytes;
           default:
-- 
2.43.0


From a679400ed3028bc3ba257254bb3099906b00fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 20/36] fix: MakeIdentity refuses a binary string of the wrong
 length

---
 src/maidsafe/common/identity.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/identity.cc b/src/maidsafe/common/identity.cc
index 5c3d81c..b78d26d 100644
--- a/src/maidsafe/common/identity.cc
+++ b/src/maidsafe/common/identity.cc
@@ -96,6 +96,8 @@ std::string Encode(const Identity& id) { return Encode(id.string()); }
 
 Identity MakeIdentity(const binary::String& id) {
   try {
+    if (id->size() != 8 * identity_size)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::outside_of_bounds));
     std::vector<byte> raw_id(identity_size, 0);
     for (size_t i = 0; i < identity_size; ++i) {
       std::bitset<8> temp(id->substr(i * 8, 8));
-- 
2.43.0


From 96c3e1dd9d402b43f8895c335b269aa37be7991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:22 +0000
Subject: [PATCH 21/36] fix: a moved-from BoundedString is as if
 default-constructed instead of holding a value outside its bounds

---
 include/maidsafe/common/bounded_string.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/maidsafe/common/bounded_string.h b/include/maidsafe/common/bounded_string.h
index fdd25d0..ca0f1bf 100644
--- a/include/maidsafe/common/bounded_string.h
+++ b/include/maidsafe/common/bounded_string.h
@@ -130,16 +130,21 @@ class BoundedString {
 
   BoundedString(BoundedString&& other) MAIDSAFE_NOEXCEPT
       : string_(std::move(other.string_)),
-        valid_(std::move(other.valid_)) INIT_DEBUG_STRING {}
+        valid_(std::move(other.valid_)) INIT_DEBUG_STRING {
+    other.Reset();
+  }
 
   BoundedString& operator=(const BoundedString&) = default;
 
   BoundedString& operator=(BoundedString&& other) MAIDSAFE_NOEXCEPT {
+    if (this == &other)
+      return *this;
     string_ = std::move(other.string_);
     valid_ = std::move(other.valid_);
 #ifndef NDEBUG
     debug_string_ = std::move(other.debug_string_);
 #endif
+    other.Reset();
     return *this;
   }
 
@@ -216,6 +221,15 @@ class BoundedString {
 #endif
 
  private:
+  // Leaves a moved-from instance as if default-constructed.
+  void Reset() MAIDSAFE_NOEXCEPT {
+    string_.clear();
+    valid_ = !OutwithBounds();
+#ifndef NDEBUG
+    debug_string_.clear();
+#endif
+  }
+
   bool OutwithBounds() const {
     static_assert(min <= max,
                   "Lower bound of BoundedString must be less than or equal to upper bound");
-- 
2.43.0


From 6878433ec77cc71c190a0f5c9da1091257a34e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:40 +0000
Subject: [PATCH 22/36] fix: SipHash counts the bytes of the last partial block
 once

---
 src/maidsafe/common/hash/algorithms/siphash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/hash/algorithms/siphash.cc b/src/maidsafe/common/hash/algorithms/siphash.cc
index 9bba844..09daa61 100644
--- a/src/maidsafe/common/hash/algorithms/siphash.cc
+++ b/src/maidsafe/common/hash/algorithms/siphash.cc
@@ -104,7 +104,7 @@ std::uint64_t FinalizeInternal(std::uint64_t v0, std::uint64_t v1, std::uint64_t
   //
   // Compress remainder bytes
   //
-  std::uint64_t b = (static_cast<std::uint64_t>(b_in + inlen)) << 56;
+  std::uint64_t b = static_cast<std::uint64_t>(b_in) << 56;
 
   switch (inlen & 7) {
     case 7:
-- 
2.43.0


From 9bdac714558307d974257541dd4b64161b572ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:05 +0000
Subject: [PATCH 23/36] fix: file names which are not of a data name and type
 id are rejected

---
 src/maidsafe/common/utils.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index dd98c7d..72c2f41 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -184,7 +184,15 @@ fs::path GetFileName(const Data::NameAndTypeId& name_and_type_id) {
 Data::NameAndTypeId GetDataNameAndTypeId(const boost::filesystem::path& file_name) {
   std::string file_name_str(file_name.string());
   size_t index(file_name_str.rfind('_'));
-  auto type_id(static_cast<DataTypeId>(std::stoul(file_name_str.substr(index + 1))));
+  if (index == std::string::npos)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  std::string type_id_str(file_name_str.substr(index + 1));
+  // std::stoul would skip leading spaces, take a sign, and ignore what follows the digits
+  if (type_id_str.empty() || type_id_str.find_first_not_of("0123456789") != std::string::npos ||
+      type_id_str.size() > std::numeric_limits<DataTypeId::value_type>::digits10 + 1 ||
+      std::stoull(type_id_str) > std::numeric_limits<DataTypeId::value_type>::max())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  DataTypeId type_id(static_cast<DataTypeId::value_type>(std::stoull(type_id_str)));
   Identity name(hex::DecodeToBytes(file_name_str.substr(0, index)));
   return Data::NameAndTypeId(std::move(name), type_id);
 }
-- 
2.43.0


From d80506cf52c48af08deadb3d6d3405af6fd74951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:40 +0000
Subject: [PATCH 24/36] fix: a menu without items does not leave its top level
 for a null parent

---
 src/maidsafe/common/menu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index c531e8e..d4c37a3 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -46,7 +46,7 @@ int Menu::Run() {
       if (clear_cli) {
         cli_.Clear();
         clear_cli = false;
-        if (current_item_->HasNoChildren())
+        if (current_item_->HasNoChildren() && current_item_->kParent_)
           current_item_ = current_item_->kParent_;
         ShowOptions();
       }
-- 
2.43.0


From e1c45f4b0e2234cfe3f75d18018318d65eb2f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:40 +0000
Subject: [PATCH 25/36] fix: a menu ends with an error when its input ends
 instead of asking for ever

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index d4c37a3..45013c0 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -60,6 +60,8 @@ int Menu::Run() {
           current_item_ = current_item_->Child(result - 1);
         }
       } catch (const std::exception&) {
+        if (!std::cin)  // there is no more input to ask for
+          throw;
         TLOG(kYellow) << "Invalid choice\n";
         continue;
       }
-- 
2.43.0


From f3a5cf90bb149b0093373c2f57b89d287d08e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 26/36] fix: ReadFile reports a file which cannot be opened or
 read in full

---
 src/maidsafe/common/utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 72c2f41..0e29680 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -323,8 +323,10 @@ boost::expected<std::vector<byte>, common_error> ReadFile(const fs::path& file_p
 
     std::ifstream file_in(file_path.c_str(), std::ios::in | std::ios::binary);
     file_in.read(reinterpret_cast<char*>(&file_content[0]), file_size);
-    file_in.close();
-    return file_content;
+    if (file_in)
+      return file_content;
+    LOG(kError) << "Failed to read file " << file_path << ": couldn't read " << file_size
+                << " bytes";
   }
   catch (const std::exception& e) {
     LOG(kError) << "Failed to read file " << file_path << ": " << e.what();
-- 
2.43.0


From 3ef3bbb1f00c77dbd15ca10a649d13ebc32e86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 27/36] fix: WriteFile reports content which could not be
 written

---
 src/maidsafe/common/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 0e29680..c4cc15f 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -348,6 +348,10 @@ bool WriteFile(const boost::filesystem::path& file_path, const std::vector<byte>
     }
     file_out.write(reinterpret_cast<const char*>(content.data()), content.size());
     file_out.close();
+    if (!file_out.good()) {
+      LOG(kError) << "Failed to write " << content.size() << " bytes to " << file_path;
+      return false;
+    }
   } catch (const std::exception& e) {
     LOG(kError) << "Failed to write file " << file_path << ": " << boost::diagnostic_information(e);
     return false;
-- 
2.43.0


From 27f56fc7043d8e8efc5819430f3271d96218a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 28/36] fix: VersionToInt rejects malformed and too large
 versions

---
 src/maidsafe/common/utils.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index c4cc15f..e0d069b 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -220,23 +220,29 @@ asio::ip::address GetLocalIp(asio::ip::udp::endpoint peer_endpoint) {
 }
 
 int VersionToInt(const std::string& version) {
+  // The tokenizer drops empty parts, and std::stoi skips leading spaces, takes a sign and ignores what
+  // follows the digits.
+  if (version.find_first_not_of("0123456789.") != std::string::npos ||
+      std::count(version.begin(), version.end(), '.') != 2)
+    return kInvalidVersion;
+
   boost::tokenizer<boost::char_separator<char>> tokens(version, boost::char_separator<char>("."));
   if (std::distance(tokens.begin(), tokens.end()) != 3)
     return kInvalidVersion;
 
   auto itr(tokens.begin());
 
-  int16_t major_version(0), minor_version(0), patch_level(0);
+  int major_version(0), minor_version(0), patch_level(0);
   try {
-    major_version = static_cast<int16_t>(std::stoi(*(itr++)));
+    major_version = std::stoi(*(itr++));
 
-    minor_version = static_cast<int16_t>(std::stoi(*itr));
+    minor_version = std::stoi(*itr);
     if ((*itr++).size() != 1U) {
       LOG(kWarning) << "Invalid minor version " << version;
       return kInvalidVersion;
     }
 
-    patch_level = static_cast<int16_t>(std::stoi(*itr));
+    patch_level = std::stoi(*itr);
     if ((*itr++).size() != 3U) {
       LOG(kWarning) << "Invalid patch level " << version;
       return kInvalidVersion;
@@ -246,7 +252,8 @@ int VersionToInt(const std::string& version) {
     return kInvalidVersion;
   }
 
-  if (major_version < 0 || minor_version < 0 || patch_level < 0) {
+  if (major_version < 0 || major_version > std::numeric_limits<int16_t>::max() ||
+      minor_version < 0 || patch_level < 0) {
     LOG(kWarning) << "Invalid version " << version;
     return kInvalidVersion;
   }
-- 
2.43.0


From 7d5341b82475240a9302967b06ebe1b511a09f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 29/36] fix: the executable path survives a failing or overlong
 readlink

---
 src/maidsafe/common/config.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/config.cc b/src/maidsafe/common/config.cc
index 640d45b..8d25dfa 100644
--- a/src/maidsafe/common/config.cc
+++ b/src/maidsafe/common/config.cc
@@ -72,8 +72,8 @@ void SetThisExecutablePath(const char* const argv[]) {
 #endif
 #ifdef __linux__
     char buffer[PATH_MAX];
-    size_t len = 0;
-    if ((len = readlink("/proc/self/exe", buffer, sizeof(buffer))) > 0) {
+    ssize_t len = readlink("/proc/self/exe", buffer, sizeof(buffer) - 1);
+    if (len > 0) {
       buffer[len] = 0;
       path = buffer;
     }
-- 
2.43.0


From cd11ae6e8e4d56caf75b062c4330525a865275d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:11 +0000
Subject: [PATCH 30/36] fix: initialise the committed flag of a database
 transaction

The destructor decides from it whether to roll back; left uninitialised, a
transaction which is dropped without a commit could stay open.
---
 src/maidsafe/common/sqlite3_wrapper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 1e34bfd..532510a 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -61,7 +61,8 @@ void Database::CheckPoint() {
 }
 
 
-Transaction::Transaction(Database& database_in) : kAttempts(200), database(database_in) {
+Transaction::Transaction(Database& database_in)
+    : kAttempts(200), committed(false), database(database_in) {
   std::string query("BEGIN IMMEDIATE TRANSACTION");  // immediate or exclusive transaction
   for (int i(0); i != kAttempts; ++i) {
     try {
-- 
2.43.0


From 1a22f8bbe223270ddef0a02c5b1730b299e1be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:06 +0000
Subject: [PATCH 31/36] fix: bind an empty blob as an empty blob

Indexing the empty vector is undefined, and the null pointer it usually gave
made sqlite bind NULL.
---
 src/maidsafe/common/sqlite3_wrapper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 532510a..2199644 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -169,7 +169,8 @@ void Statement::BindText(int row_index, const std::string& text) {
 
 void Statement::BindBlob(int row_index, const SerialisedData& blob) {
   assert(blob.size() < std::numeric_limits<int>::max());
-  auto return_value = sqlite3_bind_blob(statement, row_index, &blob[0],
+  auto return_value = sqlite3_bind_blob(statement, row_index,
+                                        blob.empty() ? static_cast<const void*>("") : blob.data(),
                                         static_cast<int>(blob.size()),
                                         reinterpret_cast<sqlite3_destructor_type>(-1));
                                         // SQLITE_TRANSIENT macro replaced with C++ cast
-- 
2.43.0


From df05ed8599049c941d10e77c9d2aa3f2db05b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:28 +0000
Subject: [PATCH 32/36] fix: throw when reading more strings than the shared
 memory holds

The missing object was dereferenced.
---
 src/maidsafe/common/ipc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maidsafe/common/ipc.cc b/src/maidsafe/common/ipc.cc
index 98a2922..f257ece 100644
--- a/src/maidsafe/common/ipc.cc
+++ b/src/maidsafe/common/ipc.cc
@@ -19,6 +19,7 @@
 #include "maidsafe/common/ipc.h"
 
 #include "maidsafe/common/encode.h"
+#include "maidsafe/common/error.h"
 #include "maidsafe/common/utils.h"
 
 namespace maidsafe {
@@ -53,6 +54,8 @@ std::vector<std::string> ReadSharedMemory(std::string name_in, int number) {
   std::vector<std::string> ret_vec;
   for (int i(0); i < number; ++i) {
     auto res = segment.find<bi_string>(std::to_string(i).c_str());
+    if (!res.first)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
     ret_vec.push_back(hex::DecodeToString(std::string(res.first->c_str(), res.first->size())));
   }
   return ret_vec;
-- 
2.43.0


From bb98bfdfa28904d34b3b2a1a3994f6bf55b62230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:12 +0000
Subject: [PATCH 33/36] fix: keep a program path which is already in quotes in
 the command line

It was left out, so the first argument took its place.
---
 src/maidsafe/common/process.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/process.cc b/src/maidsafe/common/process.cc
index 5f234f4..4eec281 100644
--- a/src/maidsafe/common/process.cc
+++ b/src/maidsafe/common/process.cc
@@ -42,6 +42,8 @@ std::string ConcatenateArgs(const std::vector<std::string>& args) {
     // contains spaces.
     if (args[0].front() != '"')
       result = '"' + args[0] + "\" ";
+    else
+      result = args[0] + " ";
 
     result += std::accumulate(std::begin(args) + 1, std::end(args), std::string(""),
                               [](const std::string& lhs, const std::string& rhs) {
-- 
2.43.0


From 7f9aacfa0b35e7d904c0bfb8ffcc51b04249a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:10 +0000
Subject: [PATCH 34/36] fix: leave secure input unchanged when asked to remove
 more than it holds

---
 .../common/authentication/detail/secure_string.h         | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/maidsafe/common/authentication/detail/secure_string.h b/include/maidsafe/common/authentication/detail/secure_string.h
index 0283e19..57e96bf 100644
--- a/include/maidsafe/common/authentication/detail/secure_string.h
+++ b/include/maidsafe/common/authentication/detail/secure_string.h
@@ -20,6 +20,7 @@
 #define MAIDSAFE_COMMON_AUTHENTICATION_DETAIL_SECURE_STRING_H_
 
 #include <string>
+#include <iterator>
 #include <map>
 #include <functional>
 
@@ -184,13 +185,11 @@ void SecureInputString<Predicate, Size, Tag>::Remove(size_type position, size_ty
   if (IsFinalised())
     Reset();
   auto it(encrypted_chars_.find(position));
-  if (it == encrypted_chars_.end() || length == 0)
+  if (it == encrypted_chars_.end() || length == 0 ||
+      length > static_cast<size_type>(std::distance(it, encrypted_chars_.end())))
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  while (length != 0) {
+  for (; length != 0; --length)
     it = encrypted_chars_.erase(it);
-    if ((length -= 1 != 0) && it == encrypted_chars_.end())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  }
   while (it != encrypted_chars_.end()) {
     auto encrypted_char = it->second;
     it = encrypted_chars_.erase(it);
-- 
2.43.0


From bb3170f2fd35b8c9657e7ef8c6358b48b08f4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:52 +0000
Subject: [PATCH 35/36] fix: refuse a file signature of the wrong size instead
 of reading beyond it or ignoring its end

---
 src/maidsafe/common/rsa.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/rsa.cc b/src/maidsafe/common/rsa.cc
index a414648..6d8925f 100644
--- a/src/maidsafe/common/rsa.cc
+++ b/src/maidsafe/common/rsa.cc
@@ -198,6 +198,10 @@ bool CheckFileSignature(const boost::filesystem::path& filename, const Signature
   }
 
   CryptoPP::RSASS<CryptoPP::PSS, CryptoPP::SHA512>::Verifier verifier(public_key);
+  if (signature.size() != verifier.SignatureLength()) {
+    LOG(kError) << "CheckFileSignature signature of wrong size";
+    return false;
+  }
   try {
     auto verifier_filter = new CryptoPP::VerifierFilter(verifier);
     verifier_filter->Put(signature.data(), verifier.SignatureLength());
-- 
2.43.0


From bc5c8a6ccc1c7fa616a66ca8e1790f1aa4230297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:52 +0000
Subject: [PATCH 36/36] fix: throw when asked to recover data from no parts
 instead of reading a part which is not there

---
 src/maidsafe/common/crypto.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index 62475c2..9226009 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -192,6 +192,10 @@ DataParts SecretShareData(int32_t threshold, int32_t number_of_shares, const Pla
 }
 
 PlainText SecretRecoverData(const DataParts& parts) {
+  if (parts.empty()) {
+    LOG(kError) << "No parts to recover data from";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * parts.front().size());
@@ -248,6 +252,10 @@ DataParts InfoDisperse(int32_t threshold, int32_t number_of_shares, const PlainT
 }
 
 PlainText InfoRetrieve(const DataParts& parts) {
+  if (parts.empty()) {
+    LOG(kError) << "No parts to recover data from";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * (parts.front().size() - 4));
-- 
2.43.0

