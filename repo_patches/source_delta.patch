From c78e4c6b43eadf2a3a04da438abdc4088e35940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 001/115] fix: read a final flat record of an empty value

FlatRecordReader::Read treated a trailing record of the minimum size as the end
of the file.  An on-memory database whose last stored value was empty could not
be opened again.
---
 tkrzw_file_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index 464b7b1..cb9aad1 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1350,7 +1350,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
   if (status != Status::SUCCESS) {
     return status;
   }
-  if (file_size <= offset_ + min_record_size) {
+  if (file_size < offset_ + min_record_size) {
     return Status(Status::NOT_FOUND_ERROR);
   }
   data_size_ = std::min(static_cast<int64_t>(buffer_size_), file_size - offset_);
-- 
2.43.0


From cb3c6fe0d58b3cb285fb98bdb3fdcf8f2a8df202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 002/115] fix: keep the free block pool capacity positive on
 rebuilding

HashDBM::RebuildAdvanced with fbp_capacity=0 made the capacity zero, and then
removing a record erased the end iterator of the empty pool, which never ended.
---
 tkrzw_dbm_hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d1ce92d..d03dd6f 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1811,7 +1811,7 @@ Status HashDBMImpl::RebuildImpl(
     }
     file_ = std::move(tmp_file);
     if (tuning_params.fbp_capacity >= 0) {
-      fbp_.SetCapacity(tuning_params.fbp_capacity);
+      fbp_.SetCapacity(std::max(1, tuning_params.fbp_capacity));
     }
     if (tuning_params.min_read_size >= 0) {
       if (tuning_params.min_read_size > 0) {
-- 
2.43.0


From 5db6a1df344496b40e356b8fd87cf4fc6c10d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:56 +0000
Subject: [PATCH 003/115] fix: load the last leaf ID of a reopened tree
 database

TreeDBM::ParseMetadata read the first leaf ID for the last one, so Last and
JumpLower of iterators gave wrong positions after reopening.
---
 tkrzw_dbm_tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 9faa4d3..45a36dd 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2767,7 +2767,7 @@ Status TreeDBM::ParseMetadata(
   *eff_data_size = ReadFixNum(rp + META_OFFSET_EFF_DATA_SIZE, 6);
   *root_id = ReadFixNum(rp + META_OFFSET_ROOT_ID, 6);
   *first_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
-  *last_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
+  *last_id = ReadFixNum(rp + META_OFFSET_LAST_ID, 6);
   *num_leaf_nodes = ReadFixNum(rp + META_OFFSET_NUM_LEAF_NODES, 6);
   *num_inner_nodes = ReadFixNum(rp + META_OFFSET_NUM_INNER_NODES, 6);
   *max_page_size = ReadFixNum(rp + META_OFFSET_MAX_PAGE_SIZE, 3);
-- 
2.43.0


From 6ca538c4838ab70fc5b080fe0c083d25ba92ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 004/115] fix: fill the truncated region of a file with zero

Truncating a file smaller than the initial allocation size left the old
data after the new end.  The restoration after a crash took it as records
and a file closed with padding was judged as broken.
---
 tkrzw_file_mmap.cc | 8 ++++++++
 tkrzw_file_pos.cc  | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index 1c1724b..e84e424 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -265,6 +265,10 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   if (status != Status::SUCCESS) {
     return status;
   }
+  const int64_t stale_end = std::min(file_size_.load(), new_map_size);
+  if (size < stale_end) {
+    std::memset(map_ + size, 0, stale_end - size);
+  }
   file_size_.store(size);
   return Status(Status::SUCCESS);
 }
@@ -833,6 +837,10 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   if (status != Status::SUCCESS) {
     return status;
   }
+  const int64_t stale_end = std::min(file_size_, new_map_size);
+  if (size < stale_end) {
+    std::memset(map_ + size, 0, stale_end - size);
+  }
   file_size_ = size;
   return Status(Status::SUCCESS);
 }
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index a4e472d..0d4b8ab 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -364,6 +364,9 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
+  if (size < file_size_.load()) {
+    status |= TruncateFile(fd_, size);
+  }
   status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_.store(size);
@@ -1054,6 +1057,9 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
+  if (size < file_size_) {
+    status |= TruncateFile(fd_, size);
+  }
   status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_ = size;
-- 
2.43.0


From 9fb8d8d6054140e41b5e10c65f416cb5fd3bcaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 005/115] fix: position and value of sharded iterators after
 removal or processing

Removal by an iterator in the descending state left the other shards behind
the current position, and Get after Process returned the old value.
---
 tkrzw_dbm_shard.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index a86bc1b..a3d8a76 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -834,11 +834,14 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
   auto* slot = heap_.front();
   class Checker : public DBM::RecordProcessor {
    public:
-    explicit Checker(RecordProcessor* proc) : proc_(proc), removed_(false)  {}
+    Checker(RecordProcessor* proc, std::string* value)
+        : proc_(proc), value_(value), removed_(false)  {}
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       const std::string_view rv = proc_->ProcessFull(key, value);
       if (rv.data() == REMOVE.data()) {
         removed_ = true;
+      } else {
+        *value_ = rv.data() == NOOP.data() ? value : rv;
       }
       return rv;
     }
@@ -850,10 +853,19 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
     }
    private:
     DBM::RecordProcessor* proc_;
+    std::string* value_;
     bool removed_;
-  } checker(proc);
+  };
+  std::string value = slot->value;
+  Checker checker(proc, &value);
   const Status status = slot->iter->Process(&checker, writable);
+  if (status == Status::SUCCESS && writable && !checker.HasRemoved()) {
+    slot->value = std::move(value);
+  }
   if (status == Status::SUCCESS && writable && checker.HasRemoved()) {
+    if (!asc_) {
+      return JumpUpper(std::string(slot->key), false);
+    }
     std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     slot = heap_.back();
     const Status get_status = slot->iter->Get(&slot->key, &slot->value);
@@ -900,6 +912,9 @@ Status ShardDBM::Iterator::Remove(std::string* old_key, std::string* old_value)
   auto* slot = heap_.front();
   const Status status = slot->iter->Remove(old_key, old_value);
   if (status == Status::SUCCESS) {
+    if (!asc_) {
+      return JumpUpper(std::string(slot->key), false);
+    }
     std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     slot = heap_.back();
     const Status get_status = slot->iter->Get(&slot->key, &slot->value);
-- 
2.43.0


From 7a82f5db99c79d2c347b3d97d2313e27762d5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 006/115] fix: accept LexicalCaseKeyComparator and refuse
 unknown key comparators

---
 tkrzw_dbm_poly.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index b147305..1219aaf 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -95,7 +95,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
   if (lower_name == "lexicalkeycomparator" || lower_name == "lexical") {
     return LexicalKeyComparator;
   }
-  if (lower_name == "lexicalCasekeycomparator" || lower_name == "lexicalcase") {
+  if (lower_name == "lexicalcasekeycomparator" || lower_name == "lexicalcase") {
     return LexicalCaseKeyComparator;
   }
   if (lower_name == "decimalkeycomparator" || lower_name == "decimal") {
@@ -116,7 +116,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
   if (lower_name == "pairlexicalkeycomparator" || lower_name == "pairlexical") {
     return PairLexicalKeyComparator;
   }
-  if (lower_name == "pairlexicalCasekeycomparator" || lower_name == "pairlexicalcase") {
+  if (lower_name == "pairlexicalcasekeycomparator" || lower_name == "pairlexicalcase") {
     return PairLexicalCaseKeyComparator;
   }
   if (lower_name == "pairdecimalkeycomparator" || lower_name == "pairdecimal") {
@@ -405,8 +405,9 @@ Status PolyDBM::OpenAdvanced(
       return Status(Status::INVALID_ARGUMENT_ERROR, "unknown File class");
     }
     TreeDBM::TuningParameters tuning_params;
+    const std::string comp_name = SearchMap(mod_params, "key_comparator", "");
     SetTreeTuningParams(&mod_params, &tuning_params);
-    if (!SearchMap(mod_params, "key_comparator", "").empty() &&
+    if (!comp_name.empty() &&
         tuning_params.key_comparator == nullptr) {
       return Status(Status::INVALID_ARGUMENT_ERROR, "unsupported key comparator");
     }
-- 
2.43.0


From b81ec95a08c0d15327d0c845d3e67650bac5331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 007/115] fix: fail to jump to a missing record of unordered
 sharded databases

---
 tkrzw_dbm_shard.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index a3d8a76..3254da8 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -700,12 +700,14 @@ Status ShardDBM::Iterator::Last() {
 
 Status ShardDBM::Iterator::Jump(std::string_view key) {
   heap_.clear();
+  bool missing = false;
   for (auto& slot : slots_) {
     Status status = slot.iter->Jump(key);
     if (status != Status::SUCCESS) {
       if (status != Status::NOT_FOUND_ERROR) {
         return status;
       }
+      missing = true;
       continue;
     }
     status = slot.iter->Get(&slot.key, &slot.value);
@@ -718,6 +720,9 @@ Status ShardDBM::Iterator::Jump(std::string_view key) {
     }
   }
   asc_ = true;
+  if (missing && heap_.empty()) {
+    return Status(Status::NOT_FOUND_ERROR);
+  }
   return Status(Status::SUCCESS);
 }
 
-- 
2.43.0


From b86773d85b148dff5d571640f3096d6a704a7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 008/115] fix: keep delimiters next to empty leading elements
 on joining

---
 tkrzw_str_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.h b/tkrzw_str_util.h
index 12411a3..75c32a1 100644
--- a/tkrzw_str_util.h
+++ b/tkrzw_str_util.h
@@ -247,10 +247,12 @@ std::string IntToStrDelta(uint64_t data, bool zigzag);
 template <typename T>
 std::string StrJoin(const T& elems, std::string_view delim) {
   std::string str;
+  bool first = true;
   for (const auto& elem : elems) {
-    if (!str.empty()) {
+    if (!first) {
       str += delim;
     }
+    first = false;
     str += ToString(elem);
   }
   return str;
-- 
2.43.0


From 2ceb000df6662ae0b97aa778b28e8ccca084e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 009/115] fix: inherit the file properties when the skip
 database file is replaced

---
 tkrzw_dbm_skip.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 05bec97..d7f93d5 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1232,6 +1232,7 @@ Status SkipDBMImpl::PrepareStorage() {
   if (insert_in_order_) {
     const std::string sorted_path = path_ + SORTED_FILE_SUFFIX;
     sorted_file_ = file_->MakeFile();
+    file_->CopyProperties(sorted_file_.get());
     Status status = sorted_file_->Open(sorted_path, true, File::OPEN_TRUNCATE);
     if (status != Status::SUCCESS) {
       return status;
@@ -1286,7 +1287,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
       return status;
     }
     auto merged_file = file_->MakeFile();
-    merged_file->CopyProperties(file_.get());
+    file_->CopyProperties(merged_file.get());
     status = merged_file->Open(merged_path, true, File::OPEN_TRUNCATE);
     if (status != Status::SUCCESS) {
       return status;
-- 
2.43.0


From 154b0d9015d967089b9975d4936ca44a0d8520a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:51 +0000
Subject: [PATCH 010/115] fix: order synchronized records of a skip database
 before merged ones

---
 tkrzw_dbm_skip.cc      | 2 +-
 tkrzw_dbm_skip_impl.cc | 4 ++--
 tkrzw_dbm_skip_impl.h  | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index d7f93d5..f83c2b3 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1275,7 +1275,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   } else {
     if (file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
       record_sorter_->AddSkipRecord(new SkipRecord(
-          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE);
+          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE, true);
     }
     if (sorted_file_ != nullptr &&
         sorted_file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
diff --git a/tkrzw_dbm_skip_impl.cc b/tkrzw_dbm_skip_impl.cc
index de149e1..e06b8d8 100644
--- a/tkrzw_dbm_skip_impl.cc
+++ b/tkrzw_dbm_skip_impl.cc
@@ -561,8 +561,8 @@ Status RecordSorter::Add(std::string_view key, std::string_view value) {
   return status;
 }
 
-void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base) {
-  skip_records_.emplace_back(rec, record_base);
+void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base, bool front) {
+  skip_records_.emplace(front ? skip_records_.begin() : skip_records_.end(), rec, record_base);
 }
 
 void RecordSorter::TakeFileOwnership(std::unique_ptr<File>&& file) {
diff --git a/tkrzw_dbm_skip_impl.h b/tkrzw_dbm_skip_impl.h
index 1bb990c..2f93c67 100644
--- a/tkrzw_dbm_skip_impl.h
+++ b/tkrzw_dbm_skip_impl.h
@@ -300,8 +300,9 @@ class RecordSorter final {
    * Adds a file of SkipRecord.
    * @param rec The pointer to a skip record, whose ownership is taken.
    * @param record_base The record base offset.
+   * @param front If true, records of the file precede those of the files added before.
    */
-  void AddSkipRecord(SkipRecord* rec, int64_t record_base);
+  void AddSkipRecord(SkipRecord* rec, int64_t record_base, bool front = false);
 
   /**
    * Takes ownership of a file object.
-- 
2.43.0


From 40f5d7e2ae570756381125e3e83377ee003602db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:47 +0000
Subject: [PATCH 011/115] fix: keep ordered insertions of a skip database
 invisible until synchronization

---
 tkrzw_dbm_skip.cc | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index f83c2b3..97edf79 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -156,8 +156,8 @@ class SkipDBMImpl final {
   std::vector<int64_t> past_offsets_;
   std::unique_ptr<SkipRecordCache> cache_;
   DBM::UpdateLogger* update_logger_;
-  int64_t old_num_records_;
-  int64_t old_eff_data_size_;
+  int64_t written_num_records_;
+  int64_t written_eff_data_size_;
   SpinSharedMutex mutex_;
 };
 
@@ -197,7 +197,7 @@ SkipDBMImpl::SkipDBMImpl(std::unique_ptr<File> file)
       sort_mem_size_(SkipDBM::DEFAULT_SORT_MEM_SIZE), insert_in_order_(false),
       max_cached_records_(SkipDBM::DEFAULT_MAX_CACHED_RECORDS),
       record_sorter_(nullptr), past_offsets_(), cache_(nullptr), update_logger_(nullptr),
-      old_num_records_(0), old_eff_data_size_(0),
+      written_num_records_(0), written_eff_data_size_(0),
       mutex_() {}
 
 SkipDBMImpl::~SkipDBMImpl() {
@@ -395,8 +395,8 @@ Status SkipDBMImpl::Close() {
   record_sorter_.reset(nullptr);
   past_offsets_.clear();
   cache_.reset(nullptr);
-  old_num_records_ = 0;
-  old_eff_data_size_ = 0;
+  written_num_records_ = 0;
+  written_eff_data_size_ = 0;
   return status;
 }
 
@@ -640,7 +640,7 @@ Status SkipDBMImpl::Count(int64_t* count) {
   if (!open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
-  *count = num_records_;
+  *count = num_records_ + written_num_records_;
   return Status(Status::SUCCESS);
 }
 
@@ -966,7 +966,7 @@ int64_t SkipDBMImpl::GetEffectiveDataSize() {
   if (!open_) {
     return -1;
   }
-  return eff_data_size_;
+  return eff_data_size_ + written_eff_data_size_;
 }
 
 int32_t SkipDBMImpl::GetDatabaseType() {
@@ -1245,8 +1245,8 @@ Status SkipDBMImpl::PrepareStorage() {
     past_offsets_.clear();
     past_offsets_.resize(max_level_, 0);
   }
-  old_num_records_ = num_records_;
-  old_eff_data_size_ = eff_data_size_;
+  written_num_records_ = 0;
+  written_eff_data_size_ = 0;
   return Status(Status::SUCCESS);
 }
 
@@ -1256,7 +1256,11 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   Status status(Status::SUCCESS);
   if (reducer == nullptr && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
-      !record_sorter_->IsUpdated()) {
+      !record_sorter_->IsUpdated() && !removed_) {
+    num_records_ = written_num_records_;
+    eff_data_size_ = written_eff_data_size_;
+    written_num_records_ = 0;
+    written_eff_data_size_ = 0;
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
@@ -1293,8 +1297,8 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
       return status;
     }
     merged_file->Truncate(METADATA_SIZE);
-    num_records_ = 0;
-    eff_data_size_ = 0;
+    written_num_records_ = 0;
+    written_eff_data_size_ = 0;
     record_index_ = 0;
     past_offsets_.clear();
     past_offsets_.resize(max_level_, 0);
@@ -1353,6 +1357,10 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
         }
       }
     }
+    num_records_ = written_num_records_;
+    eff_data_size_ = written_eff_data_size_;
+    written_num_records_ = 0;
+    written_eff_data_size_ = 0;
     file_size_ = merged_file->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(merged_file.get(), true);
@@ -1377,6 +1385,8 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   past_offsets_.clear();
   record_sorter_.reset(nullptr);
   updated_ = false;
+  written_num_records_ = 0;
+  written_eff_data_size_ = 0;
   return status;
 }
 
@@ -1391,8 +1401,8 @@ Status SkipDBMImpl::DiscardStorage() {
   past_offsets_.clear();
   record_sorter_.reset(nullptr);
   updated_ = false;
-  num_records_ = old_num_records_;
-  eff_data_size_ = old_eff_data_size_;
+  written_num_records_ = 0;
+  written_eff_data_size_ = 0;
   return status;
 }
 
@@ -1441,8 +1451,8 @@ Status SkipDBMImpl::WriteRecord(std::string_view key, std::string_view value, Fi
   if (status != Status::SUCCESS) {
     return status;
   }
-  num_records_++;
-  eff_data_size_ += key.size() + value.size();
+  written_num_records_++;
+  written_eff_data_size_ += key.size() + value.size();
   record_index_++;
   return Status(Status::SUCCESS);
 }
-- 
2.43.0


From 610af57ccb6f57b94ff9a5c3bc5605bb5425e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:47 +0000
Subject: [PATCH 012/115] fix: overwrite records of a skip database when the
 old value is asked for

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 97edf79..6ec0a36 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1802,7 +1802,7 @@ Status SkipDBM::Set(std::string_view key, std::string_view value, bool overwrite
   if (overwrite && old_value == nullptr) {
     return impl_->Insert(key, value);
   }
-  return DBM::Set(key, value, false, old_value);
+  return DBM::Set(key, value, overwrite, old_value);
 }
 
 Status SkipDBM::Remove(std::string_view key, std::string* old_value) {
-- 
2.43.0


From fac6a805c03bcd9bb992de96fbbc4815b1ac9e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 013/115] fix: keep the current key while validating records of
 a skip database

---
 tkrzw_dbm_skip.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 6ec0a36..65c8602 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1097,14 +1097,14 @@ Status SkipDBMImpl::ValidateRecords() {
     }
     offset += rec.GetWholeSize();
     index++;
-    if (offset == end_offset || last_key != key) {
-      std::string tmp_key(key);
+    std::string tmp_key(key);
+    if (offset == end_offset || last_key != tmp_key) {
       status = rec.Search(METADATA_SIZE, cache_.get(), tmp_key, false);
       if (status != Status::SUCCESS) {
         return status;
       }
     }
-    last_key = key;
+    last_key = std::move(tmp_key);
   }
   return Status(Status::SUCCESS);
 }
-- 
2.43.0


From a14f681724326325d6b53d32b4c33046798f1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:37 +0000
Subject: [PATCH 014/115] fix: skip excessive digits before the exponent in
 StrToDouble

---
 tkrzw_str_util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index d0ecb00..a9d52be 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -298,6 +298,9 @@ double StrToDouble(std::string_view str, double defval) {
       col++;
       base *= 10;
     }
+    while (rp < ep && *rp >= '0' && *rp <= '9') {
+      rp++;
+    }
     num += fract;
   }
   if (!has_number) {
-- 
2.43.0


From b7430526cd79b9cf6bfa22dbc345ed9deeef3501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:00 +0000
Subject: [PATCH 015/115] fix: find patterns followed by a null character in
 StrSearchZ

---
 tkrzw_str_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index a9d52be..7462043 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -1046,7 +1046,7 @@ int32_t StrSearchZ(std::string_view text, std::string_view pattern) {
     }
   }
   for (size_t i = pattern.size() + 1; i < concat.size(); i++) {
-    if (z[i] == pattern.size()) {
+    if (z[i] >= pattern.size()) {
       return i - 1 - pattern.size();
     }
   }
-- 
2.43.0


From fd507b3f4ca4510b1f9e38ff52db42b4a6d35660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:00 +0000
Subject: [PATCH 016/115] fix: have a shift for the byte 255 in the BM searches

---
 tkrzw_str_util.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 7462043..0a6fd5c 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -948,8 +948,8 @@ int32_t StrSearchBM(std::string_view text, std::string_view pattern) {
   if (pattern.empty()) {
     return 0;
   }
-  int32_t table[UINT8MAX];
-  for (int32_t table_index = 0; table_index < UINT8MAX; table_index++) {
+  int32_t table[UINT8MAX + 1];
+  for (int32_t table_index = 0; table_index <= UINT8MAX; table_index++) {
     table[table_index] = pattern.size();
   }
   int32_t shift = pattern.size();
@@ -1136,8 +1136,8 @@ std::vector<int32_t> StrSearchWholeBM(
     }
     return result;
   }
-  int32_t table[UINT8MAX];
-  for (int32_t table_index = 0; table_index < UINT8MAX; table_index++) {
+  int32_t table[UINT8MAX + 1];
+  for (int32_t table_index = 0; table_index <= UINT8MAX; table_index++) {
     table[table_index] = pattern.size();
   }
   int32_t shift = pattern.size();
-- 
2.43.0


From 54458699db9b1366350ec905a1c5d8ffcd237194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 017/115] fix: find an empty pattern in an empty text in
 StrSearchZ

---
 tkrzw_str_util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 0a6fd5c..d5a4540 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -1014,6 +1014,9 @@ int32_t StrSearchRK(std::string_view text, std::string_view pattern) {
 }
 
 int32_t StrSearchZ(std::string_view text, std::string_view pattern) {
+  if (pattern.empty()) {
+    return 0;
+  }
   std::string concat;
   concat.reserve(pattern.size() + 1 + text.size());
   concat.append(pattern);
-- 
2.43.0


From 35bd52714a0d249ae12ed2c7e26cb1a746892e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 018/115] fix: limit the results of empty patterns in
 StrSearchBatchRK

---
 tkrzw_str_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index d5a4540..45410a6 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -1261,7 +1261,9 @@ std::vector<std::vector<int32_t>> StrSearchBatchRK(
     const auto& pattern_indices = batch_item.second;
     if (pattern_size < 1) {
       for (const auto& pattern_index : pattern_indices) {
-        for (size_t i = 0; i < text.size(); i++) {
+        const size_t num_results =
+            max_results > 0 ? std::min(max_results, text.size()) : text.size();
+        for (size_t i = 0; i < num_results; i++) {
           result[pattern_index].emplace_back(i);
         }
       }
-- 
2.43.0


From 0ebd41583bcff56b09a56b62e5817d492f731c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 019/115] fix: widen integers before applying the zigzag
 encoding to vectors

---
 tkrzw_str_util.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tkrzw_str_util.h b/tkrzw_str_util.h
index 75c32a1..32aa4f3 100644
--- a/tkrzw_str_util.h
+++ b/tkrzw_str_util.h
@@ -979,10 +979,11 @@ inline std::string SerializeIntVectorDelta(const std::vector<T>& values, bool zi
   for (const T value : values) {
     uint64_t num = 0;
     if (zigzag) {
-      if (static_cast<uint64_t>(value) > INT64MAX) {
-        num = static_cast<uint64_t>((value + 1) * -2) + 1;
+      num = static_cast<uint64_t>(value);
+      if (num > INT64MAX) {
+        num = (num + 1) * -2 + 1;
       } else {
-        num = value * 2;
+        num = num * 2;
       }
     } else {
       num = static_cast<uint64_t>(value);
-- 
2.43.0


From 4893befc8cd0e0ad319a6de000613b7974ad3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:48 +0000
Subject: [PATCH 020/115] fix: print long strings with width specifiers in
 SPrintF

---
 tkrzw_str_util.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 45410a6..75f678e 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -377,9 +377,12 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
             if (cbsiz == 2) {
               dest->append(tmp);
             } else {
-              char tbuf[NUM_BUFFER_SIZE * 2];
-              size_t tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, tmp);
-              dest->append(tbuf, tsiz);
+              const int32_t tsiz = std::snprintf(nullptr, 0, cbuf, tmp);
+              if (tsiz > 0) {
+                std::vector<char> tbuf(tsiz + 1);
+                std::snprintf(tbuf.data(), tbuf.size(), cbuf, tmp);
+                dest->append(tbuf.data(), tsiz);
+              }
             }
           } else {
             dest->append("(null)");
-- 
2.43.0


From 689129aacf2a056e1b66ffbdb2c10e9851f8508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:33 +0000
Subject: [PATCH 021/115] fix: stop deserializing broken strings in bounded
 time

---
 tkrzw_str_util.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 75f678e..65607d5 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -2130,7 +2130,7 @@ std::vector<std::string> DeserializeStrVector(std::string_view serialized) {
     const size_t step = ReadVarNum(rp, size, &value_size);
     rp += step;
     size -= step;
-    if (size < static_cast<int64_t>(value_size)) {
+    if (step < 1 || static_cast<uint64_t>(size) < value_size) {
       break;
     }
     values.emplace_back(std::string(rp, value_size));
@@ -2187,7 +2187,7 @@ std::map<std::string, std::string> DeserializeStrMap(std::string_view serialized
     size_t step = ReadVarNum(rp, size, &key_size);
     rp += step;
     size -= step;
-    if (size < static_cast<int64_t>(key_size)) {
+    if (step < 1 || static_cast<uint64_t>(size) < key_size) {
       break;
     }
     const char* key_ptr = rp;
@@ -2197,7 +2197,7 @@ std::map<std::string, std::string> DeserializeStrMap(std::string_view serialized
     step = ReadVarNum(rp, size, &value_size);
     rp += step;
     size -= step;
-    if (size < static_cast<int64_t>(value_size)) {
+    if (step < 1 || static_cast<uint64_t>(size) < value_size) {
       break;
     }
     const char* value_ptr = rp;
-- 
2.43.0


From edd84d119c617625a61b1e8377cda83de4665137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 022/115] fix: write the sign of the time zone and times before
 the epoch in FormatDateRFC1123

---
 tkrzw_time_util.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index fa02867..f0db26a 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -217,7 +217,7 @@ size_t FormatDateW3CDTFWithFrac(char* result, double wtime, int32_t td, int32_t
 
 size_t FormatDateRFC1123(char* result, int64_t wtime, int32_t td) {
   assert(result != nullptr);
-  if (wtime < 0) {
+  if (wtime == INT64MIN) {
     wtime = GetWallTime();
   }
   if (td == INT32MIN) {
@@ -259,9 +259,9 @@ size_t FormatDateRFC1123(char* result, int64_t wtime, int32_t td) {
   } else {
     if (td < 0) {
       td *= -1;
-      *wp++ += '-';
+      *wp++ = '-';
     } else {
-      *wp++ += '+';
+      *wp++ = '+';
     }
     wp += std::sprintf(wp, "%02d%02d", td / 60, td % 60);
   }
-- 
2.43.0


From e35e6e72deae6b2bf46ca3dfe206d63cbc679931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 023/115] fix: do not read beyond the expression in
 ParseDateStr

---
 tkrzw_time_util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index f0db26a..de3e67b 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -301,7 +301,7 @@ double ParseDateStr(std::string_view str) {
   if (has_num && plen == 0) {
     return wtime;
   }
-  if (has_num && plen > 0 && pv > rp && (plen > 1 || pv[1] <= ' ')) {
+  if (has_num && plen > 0) {
     if (pv[0] == 's' || pv[0] == 'S') {
       return wtime;
     }
@@ -340,7 +340,7 @@ double ParseDateStr(std::string_view str) {
       rp += 19;
       len -= 19;
       if (len > 0 && *rp == '.') {
-        frac = StrToDouble(rp, len);
+        frac = StrToDouble(std::string_view(rp, len));
         rp++;
         len--;
         while (len > 0 && (*rp >= '0' && *rp <= '9')) {
-- 
2.43.0


From 23442505148e001af8e72dd4aa3ac6a7da375e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 024/115] fix: do not round the fraction of a time up to a
 whole second

---
 tkrzw_time_util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index de3e67b..1d8d1c9 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -127,7 +127,7 @@ size_t FormatDateSimpleWithFrac(char* result, double wtime, int32_t td, int32_t
                         uts.tm_hour, uts.tm_min, uts.tm_sec);
   }
   char dec[16];
-  std::sprintf(dec, "%.12f", frac);
+  std::sprintf(dec, "%.12f", std::min(frac, 1.0 - 1e-12));
   char* wp = dec;
   if (*wp == '0') {
     wp++;
@@ -204,7 +204,7 @@ size_t FormatDateW3CDTFWithFrac(char* result, double wtime, int32_t td, int32_t
                         uts.tm_hour, uts.tm_min, uts.tm_sec, tzone);
   }
   char dec[16];
-  std::sprintf(dec, "%.12f", frac);
+  std::sprintf(dec, "%.12f", std::min(frac, 1.0 - 1e-12));
   char* wp = dec;
   if (*wp == '0') {
     wp++;
-- 
2.43.0


From 918441cbeb6f0a2ff654e7abd42c32ec3d871b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 025/115] fix: order NaN consistently in
 RealNumberKeyComparator

---
 tkrzw_key_comparators.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_key_comparators.h b/tkrzw_key_comparators.h
index 2dbc680..d20b7cd 100644
--- a/tkrzw_key_comparators.h
+++ b/tkrzw_key_comparators.h
@@ -87,6 +87,8 @@ inline int32_t HexadecimalKeyComparator(std::string_view a, std::string_view b)
 inline int32_t RealNumberKeyComparator(std::string_view a, std::string_view b) {
   const double a_num = StrToDouble(a);
   const double b_num = StrToDouble(b);
+  if (std::isnan(a_num)) return std::isnan(b_num) ? 0 : -1;
+  if (std::isnan(b_num)) return 1;
   return a_num < b_num ? -1 : (a_num > b_num ? 1 : 0);
 }
 
-- 
2.43.0


From 05b27e3d2d623f0273433c528b06b52ef0bda669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 026/115] fix: keep deserialized string pairs inside of the
 serialized data

---
 tkrzw_str_util.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 65607d5..31cc0e5 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -2091,19 +2091,23 @@ void DeserializeStrPair(
   size_t step = ReadVarNum(rp, size, &first_size);
   rp += step;
   size -= step;
+  first_size = std::min<uint64_t>(first_size, size);
   *first = std::string_view(rp, first_size);
   rp += first_size;
   size -= first_size;
   uint64_t second_size = 0;
   step = ReadVarNum(rp, size, &second_size);
   rp += step;
+  size -= step;
+  second_size = std::min<uint64_t>(second_size, size);
   *second = std::string_view(rp, second_size);
 }
 
 std::string_view GetFirstFromSerializedStrPair(std::string_view serialized) {
   uint64_t first_size = 0;
   size_t step = ReadVarNum(serialized.data(), serialized.size(), &first_size);
-  return std::string_view(serialized.data() + step, first_size);
+  return std::string_view(serialized.data() + step,
+                          std::min<uint64_t>(first_size, serialized.size() - step));
 }
 
 std::string SerializeStrVector(const std::vector<std::string>& values) {
-- 
2.43.0


From 87732c17dd1b9866f4efd354f83a92764a9824f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 027/115] fix: stop expanding the buffer for broken compressed
 data

---
 tkrzw_compress.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tkrzw_compress.cc b/tkrzw_compress.cc
index 016f5c7..5322e6c 100644
--- a/tkrzw_compress.cc
+++ b/tkrzw_compress.cc
@@ -28,6 +28,7 @@ extern "C" {
 #if _TKRZW_COMP_ZSTD
 extern "C" {
 #include <zstd.h>
+#include <zstd_errors.h>
 }
 #endif
 
@@ -197,7 +198,7 @@ char* ZLibCompressor::Decompress(const void* buf, size_t size, size_t* sp) const
       *sp = zsiz;
       return zbuf;
     } else if (rv == Z_BUF_ERROR) {
-      if (zsiz >= INT32MAX / 2) {
+      if (zs.avail_out > 0 || zsiz >= INT32MAX / 2) {
         break;
       }
       zsiz *= 2;
@@ -258,7 +259,7 @@ char* ZStdCompressor::Decompress(const void* buf, size_t size, size_t* sp) const
       *sp = rsiz;
       return zbuf;
     }
-    if (zsiz >= INT32MAX / 2) {
+    if (ZSTD_getErrorCode(rsiz) != ZSTD_error_dstSize_tooSmall || zsiz >= INT32MAX / 2) {
       break;
     }
     zsiz *= 2;
@@ -317,7 +318,8 @@ char* LZ4Compressor::Decompress(const void* buf, size_t size, size_t* sp) const
       *sp = rsiz;
       return zbuf;
     }
-    if (zsiz >= INT32MAX / 2) {
+    // The compression ratio of LZ4 is less than 256.
+    if (zsiz >= INT32MAX / 2 || static_cast<size_t>(zsiz) >= size * 256 + 32) {
       break;
     }
     zsiz *= 2;
@@ -422,7 +424,7 @@ char* LZMACompressor::Decompress(const void* buf, size_t size, size_t* sp) const
       *sp = zsiz;
       return zbuf;
     } else if (rv == LZMA_OK) {
-      if (zsiz >= INT32MAX / 2) {
+      if (zs.avail_out > 0 || zsiz >= INT32MAX / 2) {
         break;
       }
       zsiz *= 2;
-- 
2.43.0


From 00a1906d0bf52031ba4d62d46ce15e429b26f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 028/115] fix: keep the existing value in
 LinkedHashMap::operator[]

---
 tkrzw_containers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_containers.h b/tkrzw_containers.h
index c172040..0b6c69d 100644
--- a/tkrzw_containers.h
+++ b/tkrzw_containers.h
@@ -1330,7 +1330,7 @@ LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::find(
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
 inline VALUETYPE& LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::operator[](
     const KEYTYPE& key) {
-  return Set(key, VALUETYPE())->value;
+  return Set(key, VALUETYPE(), false)->value;
 }
 
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
-- 
2.43.0


From 4617eb5e8b18588f917146d455eabf4e04adf248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 029/115] fix: keep the fraction of LinkedHashMap::load_factor

---
 tkrzw_containers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_containers.h b/tkrzw_containers.h
index 0b6c69d..5d73787 100644
--- a/tkrzw_containers.h
+++ b/tkrzw_containers.h
@@ -1404,7 +1404,7 @@ void LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::rehash(size_t num
 
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
 float LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::load_factor() const {
-  return num_records_ / num_buckets_;
+  return static_cast<float>(num_records_) / num_buckets_;
 }
 
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
-- 
2.43.0


From c514b3917b76702b2ee67cc109edd97b1d9d3810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 030/115] fix: parse years before 1969 in RFC 1123 dates

---
 tkrzw_time_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index 1d8d1c9..c6a5e74 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -417,7 +417,7 @@ double ParseDateStr(std::string_view str) {
       len--;
     }
     uts.tm_year = StrToInt(std::string_view(rp, len));
-    if (uts.tm_year >= 1969) {
+    if (uts.tm_year >= 100) {
       uts.tm_year -= 1900;
     }
     while (len > 0 && *rp >= '0' && *rp <= '9') {
-- 
2.43.0


From f97c37533b384ef6951a1e917220adce69819bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:48 +0000
Subject: [PATCH 031/115] fix: restore encrypted databases with their cipher
 key

---
 tkrzw_dbm_hash.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d03dd6f..9009fd4 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -338,7 +338,8 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
       const std::string tmp_path = path_ + ".tmp.restore";
       const int64_t end_offset = restore_mode == HashDBM::RESTORE_SYNC ? 0 : -1;
       RemoveFile(tmp_path);
-      status = HashDBM::RestoreDatabase(path_, tmp_path, end_offset, cipher_key_);
+      status = HashDBM::RestoreDatabase(path_, tmp_path, end_offset,
+                                        tuning_params.cipher_key);
       if (status != Status::SUCCESS) {
         RemoveFile(tmp_path);
         return status;
-- 
2.43.0


From b7ac7467f42813904c1bcdb35ab27a205c3ba25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:09 +0000
Subject: [PATCH 032/115] fix: keep the key comparator when restoring TreeDBM

---
 tkrzw_dbm_tree.cc | 23 +++++++++++++++++++++--
 tkrzw_dbm_tree.h  |  5 ++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 45a36dd..3bec0aa 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -442,7 +442,8 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
     const int64_t end_offset =
         tuning_params.restore_mode == HashDBM::RESTORE_SYNC ? INT64MAX : INT64MIN;
     RemoveFile(tmp_path);
-    status = TreeDBM::RestoreDatabase(norm_path, tmp_path, end_offset, tuning_params.cipher_key);
+    status = TreeDBM::RestoreDatabase(norm_path, tmp_path, end_offset, tuning_params.cipher_key,
+                                      tuning_params.key_comparator);
     if (status != Status::SUCCESS) {
       RemoveFile(tmp_path);
       return status;
@@ -2781,7 +2782,7 @@ Status TreeDBM::ParseMetadata(
 
 Status TreeDBM::RestoreDatabase(
     const std::string& old_file_path, const std::string& new_file_path,
-    int64_t end_offset, std::string_view cipher_key) {
+    int64_t end_offset, std::string_view cipher_key, KeyComparator key_comparator) {
   std::string tmp_file_path = old_file_path;
   if (end_offset == INT64MIN || end_offset == INT64MAX) {
     end_offset = end_offset == INT64MIN ? -1 : 0;
@@ -2856,6 +2857,23 @@ Status TreeDBM::RestoreDatabase(
     max_page_size = -1;
     max_branches = -1;
   }
+  switch (key_comp_type) {
+    case 1: key_comparator = LexicalKeyComparator; break;
+    case 2: key_comparator = LexicalCaseKeyComparator; break;
+    case 3: key_comparator = DecimalKeyComparator; break;
+    case 4: key_comparator = HexadecimalKeyComparator; break;
+    case 5: key_comparator = RealNumberKeyComparator; break;
+    case 6: key_comparator = SignedBigEndianKeyComparator; break;
+    case 7: key_comparator = FloatBigEndianKeyComparator; break;
+    case 101: key_comparator = PairLexicalKeyComparator; break;
+    case 102: key_comparator = PairLexicalCaseKeyComparator; break;
+    case 103: key_comparator = PairDecimalKeyComparator; break;
+    case 104: key_comparator = PairHexadecimalKeyComparator; break;
+    case 105: key_comparator = PairRealNumberKeyComparator; break;
+    case 106: key_comparator = PairSignedBigEndianKeyComparator; break;
+    case 107: key_comparator = PairFloatBigEndianKeyComparator; break;
+    default: break;
+  }
   TuningParameters params;
   params.update_mode = tmp_dbm.GetUpdateMode();
   params.record_crc_mode = record_crc_mode;
@@ -2866,6 +2884,7 @@ Status TreeDBM::RestoreDatabase(
   params.cipher_key = cipher_key;
   params.max_page_size = max_page_size;
   params.max_branches = max_branches;
+  params.key_comparator = key_comparator;
   TreeDBM new_dbm;
   status = new_dbm.OpenAdvanced(new_file_path, true, File::OPEN_TRUNCATE, params);
   if (status != Status::SUCCESS) {
diff --git a/tkrzw_dbm_tree.h b/tkrzw_dbm_tree.h
index d0b6c9d..cc0a561 100644
--- a/tkrzw_dbm_tree.h
+++ b/tkrzw_dbm_tree.h
@@ -596,11 +596,14 @@ class TreeDBM final : public DBM {
    * mean to omit restore of the underlying hash database.  Then, INT64MIN is unlimited and
    * INT64MAX means synched restoration.
    * @param cipher_key The encryption key for cipher compressors.
+   * @param key_comparator The comparator of record keys.  It is used if the comparator is not
+   * determined by the metadata of the broken database.
    * @return The result status.
    */
   static Status RestoreDatabase(
       const std::string& old_file_path, const std::string& new_file_path,
-      int64_t end_offset, std::string_view cipher_key = "");
+      int64_t end_offset, std::string_view cipher_key = "",
+      KeyComparator key_comparator = nullptr);
 
  private:
   /** Pointer to the actual implementation. */
-- 
2.43.0


From 4c9d60d8701bac16775e67c26e37becc2b9b5d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 033/115] fix: save the database type and the opaque metadata
 in rebuilt files

---
 tkrzw_dbm_hash.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 9009fd4..4518a7c 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1773,7 +1773,9 @@ Status HashDBMImpl::RebuildImpl(
         return status;
       }
     }
-    status = tmp_dbm.Close();
+    status = tmp_dbm.SetDatabaseType(db_type_);
+    status |= tmp_dbm.SetOpaqueMetadata(opaque_);
+    status |= tmp_dbm.Close();
     if (status != Status::SUCCESS) {
       CleanUp();
       return status;
-- 
2.43.0


From bac28fcc27e76f350602c8d63e179d4b3202dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:13 +0000
Subject: [PATCH 034/115] fix: do not save the metadata of discarded records in
 HashDBM::Clear

---
 tkrzw_dbm_hash.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 4518a7c..0bdac53 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -676,9 +676,14 @@ Status HashDBMImpl::Clear() {
   const std::string cipher_key = cipher_key_;
   const uint32_t db_type = db_type_;
   const std::string opaque = opaque_;
+  Status status = file_->Truncate(0);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   CancelIterators();
-  Status status = CloseImpl();
-  status |= file_->Truncate(0);
+  // The metadata of the discarded records must not be saved.
+  writable_ = false;
+  status |= CloseImpl();
   static_flags_ = static_flags;
   offset_width_ = offset_width;
   align_pow_ = align_pow;
-- 
2.43.0


From 2a6d9036f50338c0b80453ef92b038e8d0e2e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:06 +0000
Subject: [PATCH 035/115] fix: save the empty tree in TreeDBM::Clear

---
 tkrzw_dbm_tree.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 3bec0aa..16e55e0 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -820,13 +820,20 @@ Status TreeDBMImpl::Clear() {
       return status;
     }
   }
+  // The metadata of the current tree must not be taken over to the cleared file.
+  const std::string opaque = hash_dbm_->GetOpaqueMetadata();
+  hash_dbm_->SetOpaqueMetadata(std::string(HashDBM::OPAQUE_METADATA_SIZE, 0));
+  Status status = hash_dbm_->Clear();
+  if (status != Status::SUCCESS) {
+    hash_dbm_->SetOpaqueMetadata(opaque);
+    return status;
+  }
   for (auto* iterator : iterators_) {
     iterator->ClearPosition();
   }
   reorg_ids_.Clear();
   DiscardLeafCache();
   DiscardInnerCache();
-  Status status = hash_dbm_->Clear();
   num_records_.store(0);
   eff_data_size_.store(0);
   root_id_ = 0;
@@ -840,7 +847,9 @@ Status TreeDBMImpl::Clear() {
   first_id_ = leaf_node->id;
   last_id_ = leaf_node->id;
   tree_level_ = 1;
+  status |= FlushLeafCacheAll(false);
   status |= SaveMetadata();
+  status |= hash_dbm_->Synchronize(false);
   return status;
 }
 
-- 
2.43.0


From b1aba07939649df186e6591caa55d53c5f70acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:46 +0000
Subject: [PATCH 036/115] fix: save the records and the free blocks before the
 header of HashDBM

---
 tkrzw_dbm_hash.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 0bdac53..509d9c1 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -757,14 +757,9 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
   if (update_logger_ != nullptr) {
     status |= update_logger_->Synchronize(hard);
   }
-  if (hard) {
-    status |= file_->Synchronize(true);
-    status |= SaveMetadata(true);
-    status |= file_->Synchronize(true, 0, METADATA_SIZE);
-  } else {
-    status |= SaveMetadata(true);
-    status |= file_->Synchronize(false);
-  }
+  status |= file_->Synchronize(hard);
+  status |= SaveMetadata(true);
+  status |= file_->Synchronize(hard, 0, METADATA_SIZE);
   if (proc != nullptr) {
     proc->Process(path_);
   }
@@ -1245,8 +1240,9 @@ Status HashDBMImpl::CloseImpl() {
   if (writable_ && healthy_) {
     file_size_ = file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
-    status |= SaveMetadata(true);
     status |= SaveFBP();
+    status |= file_->Synchronize(false);
+    status |= SaveMetadata(true);
   }
   open_ = false;
   writable_ = false;
-- 
2.43.0


From aaaaf5690b969e949ba2aab2aeb751c9ec2e639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:51 +0000
Subject: [PATCH 037/115] fix: save the free blocks in HashDBM::Synchronize

---
 tkrzw_dbm_hash.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 509d9c1..cc74e01 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -757,6 +757,7 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
   if (update_logger_ != nullptr) {
     status |= update_logger_->Synchronize(hard);
   }
+  status |= SaveFBP();
   status |= file_->Synchronize(hard);
   status |= SaveMetadata(true);
   status |= file_->Synchronize(hard, 0, METADATA_SIZE);
-- 
2.43.0


From cd06dc5eed5bedd3065f1f04f0ed9bb6e6d1a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:51 +0000
Subject: [PATCH 038/115] fix: accept the unused region of flat record files
 which were not closed

---
 tkrzw_file_util.cc | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index cb9aad1..76b0a40 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1298,6 +1298,31 @@ Status FlatRecord::Write(std::string_view data, RecordType rec_type) {
   return status;
 }
 
+/** Checks the data which is not a record: zeros up to the end of the file are the unused region of
+    a file which was not closed. */
+static Status CheckInvalidRecord(File* file, int64_t offset) {
+  int64_t file_size = 0;
+  Status status = file->GetSize(&file_size);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
+  char buf[8192];
+  while (offset < file_size) {
+    const int64_t read_size = std::min<int64_t>(file_size - offset, sizeof(buf));
+    status = file->Read(offset, buf, read_size);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+    for (int64_t i = 0; i < read_size; i++) {
+      if (buf[i] != 0) {
+        return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+      }
+    }
+    offset += read_size;
+  }
+  return Status(Status::NOT_FOUND_ERROR);
+}
+
 FlatRecordReader::FlatRecordReader(File* file, size_t buffer_size)
     : file_(file), offset_(0), buffer_(nullptr), buffer_size_(0), data_size_(0), index_(0) {
   if (buffer_size < 1) {
@@ -1327,7 +1352,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
         *rec_type = FlatRecord::RECORD_METADATA;
       }
     } else {
-      return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+      return CheckInvalidRecord(file_, offset_);
     }
     rp++;
     record_size--;
@@ -1372,7 +1397,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
       *rec_type = FlatRecord::RECORD_METADATA;
     }
   } else {
-    return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+    return CheckInvalidRecord(file_, offset_);
   }
   rp++;
   record_size--;
@@ -1409,7 +1434,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
       *rec_type = FlatRecord::RECORD_METADATA;
     }
   } else {
-    return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+    return CheckInvalidRecord(file_, offset_);
   }
   rp++;
   record_size--;
-- 
2.43.0


From ae3ced785371ac9c940de10ab674ab6df8190813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:36 +0000
Subject: [PATCH 039/115] fix: save the merged file of SkipDBM before renaming
 it

---
 tkrzw_dbm_skip.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 65c8602..60f3c9d 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1264,6 +1264,10 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
+    status |= sorted_file_->Synchronize(false);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
     file_->DisablePathOperations();
     if (IS_POSIX) {
       status |= sorted_file_->Rename(path_);
@@ -1364,6 +1368,10 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     file_size_ = merged_file->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(merged_file.get(), true);
+    status |= merged_file->Synchronize(false);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
     file_->DisablePathOperations();
     if (IS_POSIX) {
       status |= merged_file->Rename(path_);
-- 
2.43.0


From 4e9aba85cc487b0f06e59a8a68fe4a3863f63f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:02 +0000
Subject: [PATCH 040/115] fix: save the database type and the opaque metadata
 in rebuilt files of SkipDBM

---
 tkrzw_dbm_skip.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 60f3c9d..a01f4ed 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -798,7 +798,9 @@ Status SkipDBMImpl::Rebuild(
     offset += rec.GetWholeSize();
     index++;
   }
-  status = tmp_dbm.Close();
+  status = tmp_dbm.SetDatabaseType(db_type_);
+  status |= tmp_dbm.SetOpaqueMetadata(opaque_);
+  status |= tmp_dbm.Close();
   if (status != Status::SUCCESS) {
     CleanUp();
     return status;
-- 
2.43.0


From 286a5a862351b7c41345c2684c50689ef3cf2549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:07 +0000
Subject: [PATCH 041/115] fix: keep the file of TreeDBM unhealthy until its
 restoration is completed

---
 tkrzw_dbm_tree.cc | 54 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 16e55e0..3b29c80 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -429,35 +429,54 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
   if (tuning_params.key_comparator != nullptr) {
     key_comparator_ = tuning_params.key_comparator;
   }
+  const int32_t restore_mode = tuning_params.restore_mode & 0xffff;
+  const int32_t restore_options = tuning_params.restore_mode & 0xffff0000;
+  const bool to_be_restored = writable && restore_mode != HashDBM::RESTORE_READ_ONLY &&
+      restore_mode != HashDBM::RESTORE_NOOP;
+  if (to_be_restored) {
+    hash_params.restore_mode = HashDBM::RESTORE_READ_ONLY;
+  }
   Status status = hash_dbm_->OpenAdvanced(norm_path, writable, options, hash_params);
   if (status != Status::SUCCESS) {
     return status;
   }
   auto_restored_ = false;
-  if (writable && hash_dbm_->IsAutoRestored() &&
-      tuning_params.restore_mode != HashDBM::RESTORE_READ_ONLY &&
-      tuning_params.restore_mode != HashDBM::RESTORE_NOOP) {
+  hash_params.restore_mode = tuning_params.restore_mode;
+  if (to_be_restored && !hash_dbm_->IsHealthy()) {
+    // The original file is kept unhealthy until it is replaced by the restored one.
+    int64_t record_base = 0;
+    int32_t static_flags = 0;
+    int32_t offset_width = 0;
+    int32_t align_pow = 0;
+    int64_t last_sync_size = 0;
+    const bool unchanged = !(restore_options & HashDBM::RESTORE_NO_SHORTCUTS) &&
+        hash_dbm_->GetUpdateMode() == HashDBM::UPDATE_APPENDING &&
+        HashDBM::FindRecordBase(hash_dbm_->GetInternalFile(), &record_base, &static_flags,
+                                &offset_width, &align_pow, &last_sync_size) == Status::SUCCESS &&
+        last_sync_size == hash_dbm_->GetFileSizeSimple() &&
+        hash_dbm_->ValidateHashBuckets() == Status::SUCCESS;
     hash_dbm_->Close();
-    const std::string tmp_path = norm_path + ".tmp.restore";
-    const int64_t end_offset =
-        tuning_params.restore_mode == HashDBM::RESTORE_SYNC ? INT64MAX : INT64MIN;
-    RemoveFile(tmp_path);
-    status = TreeDBM::RestoreDatabase(norm_path, tmp_path, end_offset, tuning_params.cipher_key,
-                                      tuning_params.key_comparator);
-    if (status != Status::SUCCESS) {
+    if (!unchanged) {
+      const std::string tmp_path = norm_path + ".tmp.restore";
+      const int64_t end_offset = restore_mode == HashDBM::RESTORE_SYNC ? 0 : -1;
       RemoveFile(tmp_path);
-      return status;
-    }
-    status = RenameFile(tmp_path, norm_path);
-    if (status != Status::SUCCESS) {
-      RemoveFile(tmp_path);
-      return status;
+      status = TreeDBM::RestoreDatabase(norm_path, tmp_path, end_offset, tuning_params.cipher_key,
+                                        tuning_params.key_comparator);
+      if (status != Status::SUCCESS) {
+        RemoveFile(tmp_path);
+        return status;
+      }
+      status = RenameFile(tmp_path, norm_path);
+      if (status != Status::SUCCESS) {
+        RemoveFile(tmp_path);
+        return status;
+      }
     }
     status = hash_dbm_->OpenAdvanced(norm_path, true, options, hash_params);
     if (status != Status::SUCCESS) {
       return status;
     }
-    auto_restored_ = true;
+    auto_restored_ = !unchanged;
   }
   if (writable && hash_dbm_->CountSimple() == 0 &&
       hash_dbm_->GetOpaqueMetadata() == std::string(HashDBM::OPAQUE_METADATA_SIZE, 0)) {
@@ -2797,6 +2816,7 @@ Status TreeDBM::RestoreDatabase(
     end_offset = end_offset == INT64MIN ? -1 : 0;
   } else {
     tmp_file_path = new_file_path + ".tmp.restore";
+    RemoveFile(tmp_file_path);
     const Status status =
         HashDBM::RestoreDatabase(old_file_path, tmp_file_path, end_offset, cipher_key);
     if (status != Status::SUCCESS) {
-- 
2.43.0


From 53329b38f61f8869d8644d31c736357783e3a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 042/115] fix: keep the memory capacity of CacheDBM and delete
 the least recently used records in rebuilding

---
 tkrzw_dbm_cache.cc | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 80caf5c..d077fcc 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -374,6 +374,9 @@ void CacheSlot::ProcessImpl(
             last_ = new_ptr;
           }
           eff_data_size_ += diff_size;
+          while (num_records_ > 0 && GetMemoryUsageImpl() > cap_mem_size_) {
+            RemoveLRU();
+          }
         }
       }
       return;
@@ -405,7 +408,8 @@ void CacheSlot::ProcessImpl(
     last_ = new_ptr;
     num_records_++;
     eff_data_size_ += key.size() + new_value.size();
-    if (num_records_ > cap_rec_num_ || GetMemoryUsageImpl() > cap_mem_size_) {
+    while (num_records_ > 0 &&
+           (num_records_ > cap_rec_num_ || GetMemoryUsageImpl() > cap_mem_size_)) {
       RemoveLRU();
     }
   }
@@ -513,26 +517,21 @@ void CacheSlot::Rebuild(int64_t cap_rec_num, int64_t cap_mem_size) {
   last_ = nullptr;
   while (ptr != nullptr) {
     char* next = CacheRecord::GetNext(ptr);
-    if (num_records_ < cap_rec_num_ && GetMemoryUsageImpl() < cap_mem_size_) {
-      CacheRecord rec;
-      rec.Deserialize(ptr);
-      const std::string_view key(rec.key_ptr, rec.key_size);
-      const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      const int32_t bucket_index = hash % num_buckets_;
-      CacheRecord::SetChild(ptr, buckets_[bucket_index]);
-      buckets_[bucket_index] = ptr;
-      num_records_++;
-      eff_data_size_ += rec.key_size + rec.value_size;
-      last_ = ptr;
-    } else {
-      xfree(ptr);
-    }
+    CacheRecord rec;
+    rec.Deserialize(ptr);
+    const std::string_view key(rec.key_ptr, rec.key_size);
+    const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
+    const int32_t bucket_index = hash % num_buckets_;
+    CacheRecord::SetChild(ptr, buckets_[bucket_index]);
+    buckets_[bucket_index] = ptr;
+    num_records_++;
+    eff_data_size_ += rec.key_size + rec.value_size;
+    last_ = ptr;
     ptr = next;
   }
-  if (last_ == nullptr) {
-    first_ = nullptr;
-  } else {
-    CacheRecord::SetNext(last_, nullptr);
+  while (num_records_ > 0 &&
+         (num_records_ > cap_rec_num_ || GetMemoryUsageImpl() > cap_mem_size_)) {
+    RemoveLRU();
   }
 }
 
-- 
2.43.0


From e1713a7245750f53d4622f3ef6a89a0cd36d9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 043/115] fix: do not lose records in traversals of ShardDBM
 when current records of the shards are removed

---
 tkrzw_dbm_shard.cc | 83 ++++++++++++++++++++++++++--------------------
 tkrzw_dbm_shard.h  |  7 ++++
 2 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 3254da8..7ffc2d9 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -654,6 +654,19 @@ ShardDBM::Iterator::~Iterator() {
   }
 }
 
+Status ShardDBM::Iterator::ReadSlot(ShardSlot* slot) {
+  while (true) {
+    Status status = slot->iter->Get(&slot->key, &slot->value);
+    if (status != Status::NOT_FOUND_ERROR) {
+      return status;
+    }
+    status = asc_ ? slot->iter->Next() : slot->iter->Previous();
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+  }
+}
+
 Status ShardDBM::Iterator::First() {
   heap_.clear();
   for (auto& slot : slots_) {
@@ -787,9 +800,13 @@ Status ShardDBM::Iterator::Next() {
   }
   std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
   auto* slot = heap_.back();
-  Status status = slot->iter->Next();
+  std::string current_key;
+  Status status = slot->iter->Get(&current_key);
+  if (status != Status::SUCCESS || current_key == slot->key) {
+    status = slot->iter->Next();
+  }
   if (status == Status::SUCCESS) {
-    status = slot->iter->Get(&slot->key, &slot->value);
+    status = ReadSlot(slot);
   }
   if (status == Status::SUCCESS) {
     std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
@@ -817,9 +834,15 @@ Status ShardDBM::Iterator::Previous() {
   }
   std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, false));
   auto* slot = heap_.back();
-  Status status = slot->iter->Previous();
+  std::string current_key;
+  Status status = slot->iter->Get(&current_key);
+  if (status == Status::SUCCESS && current_key == slot->key) {
+    status = slot->iter->Previous();
+  } else {
+    status = slot->iter->JumpLower(slot->key, false);
+  }
   if (status == Status::SUCCESS) {
-    status = slot->iter->Get(&slot->key, &slot->value);
+    status = ReadSlot(slot);
   }
   if (status == Status::SUCCESS) {
     std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, false));
@@ -839,9 +862,13 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
   auto* slot = heap_.front();
   class Checker : public DBM::RecordProcessor {
    public:
-    Checker(RecordProcessor* proc, std::string* value)
-        : proc_(proc), value_(value), removed_(false)  {}
+    Checker(RecordProcessor* proc, std::string_view key, std::string* value)
+        : proc_(proc), key_(key), value_(value), matched_(true), removed_(false)  {}
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
+      if (key != key_) {
+        matched_ = false;
+        return NOOP;
+      }
       const std::string_view rv = proc_->ProcessFull(key, value);
       if (rv.data() == REMOVE.data()) {
         removed_ = true;
@@ -853,17 +880,25 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
     std::string_view ProcessEmpty(std::string_view key) override {
       return proc_->ProcessEmpty(key);
     }
+    bool HasMatched() const {
+      return matched_;
+    }
     bool HasRemoved() const {
       return removed_;
     }
    private:
     DBM::RecordProcessor* proc_;
+    std::string_view key_;
     std::string* value_;
+    bool matched_;
     bool removed_;
   };
   std::string value = slot->value;
-  Checker checker(proc, &value);
+  Checker checker(proc, slot->key, &value);
   const Status status = slot->iter->Process(&checker, writable);
+  if (status == Status::SUCCESS && !checker.HasMatched()) {
+    return Status(Status::NOT_FOUND_ERROR);
+  }
   if (status == Status::SUCCESS && writable && !checker.HasRemoved()) {
     slot->value = std::move(value);
   }
@@ -873,7 +908,7 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
     }
     std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     slot = heap_.back();
-    const Status get_status = slot->iter->Get(&slot->key, &slot->value);
+    const Status get_status = ReadSlot(slot);
     if (get_status == Status::SUCCESS) {
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     } else {
@@ -899,37 +934,13 @@ Status ShardDBM::Iterator::Get(std::string* key, std::string* value) {
 
 Status ShardDBM::Iterator::Set(
     std::string_view value, std::string* old_key, std::string* old_value) {
-  if (heap_.empty()) {
-    return Status(Status::NOT_FOUND_ERROR);
-  }
-  auto* slot = heap_.front();
-  const Status status = slot->iter->Set(value, old_key, old_value);
-  if (status == Status::SUCCESS) {
-    slot->value = value;
-  }
-  return status;
+  RecordProcessorIterator proc(value, old_key, old_value);
+  return Process(&proc, true);
 }
 
 Status ShardDBM::Iterator::Remove(std::string* old_key, std::string* old_value) {
-  if (heap_.empty()) {
-    return Status(Status::NOT_FOUND_ERROR);
-  }
-  auto* slot = heap_.front();
-  const Status status = slot->iter->Remove(old_key, old_value);
-  if (status == Status::SUCCESS) {
-    if (!asc_) {
-      return JumpUpper(std::string(slot->key), false);
-    }
-    std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
-    slot = heap_.back();
-    const Status get_status = slot->iter->Get(&slot->key, &slot->value);
-    if (get_status == Status::SUCCESS) {
-      std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
-    } else {
-      heap_.pop_back();
-    }
-  }
-  return status;
+  RecordProcessorIterator proc(RecordProcessor::REMOVE, old_key, old_value);
+  return Process(&proc, true);
 }
 
 Status ShardDBM::GetNumberOfShards(const std::string& path, int32_t* num_shards) {
diff --git a/tkrzw_dbm_shard.h b/tkrzw_dbm_shard.h
index 35ac034..a2943bd 100644
--- a/tkrzw_dbm_shard.h
+++ b/tkrzw_dbm_shard.h
@@ -215,6 +215,13 @@ class ShardDBM final : public ParamDBM {
      */
     explicit Iterator(std::vector<std::shared_ptr<PolyDBM>>* dbms);
 
+    /**
+     * Reads the current record of a slot, skipping records removed in the meantime.
+     * @param slot The shard slot.
+     * @return The result status.
+     */
+    Status ReadSlot(ShardSlot* slot);
+
     /** The shard slots. */
     std::vector<ShardSlot> slots_;
     /** The heap to get the mimimum record. */
-- 
2.43.0


From f783fd40b2d3cf40f50f646909e0b99036301b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 044/115] fix: do not skip a page in
 TreeDBM::Iterator::Previous from a removed record

---
 tkrzw_dbm_tree.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 3b29c80..9ade1b2 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2428,12 +2428,10 @@ Status TreeDBMIteratorImpl::PreviousImpl(std::string_view key) {
     std::shared_lock<SpinSharedMutex> lock(node->mutex);
     auto& records = node->records;
     auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
-    if (it != records.end()) {
-      if (it != records.begin()) {
-        --it;
-        SetPositionWithKey(leaf_id_, (*it)->GetKey());
-        hit = true;
-      }
+    if (it != records.begin()) {
+      --it;
+      SetPositionWithKey(leaf_id_, (*it)->GetKey());
+      hit = true;
     }
   }
   Status status(Status::SUCCESS);
-- 
2.43.0


From 1f06ab2ca7c180731f922a1939749618d76e3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:34 +0000
Subject: [PATCH 045/115] fix: process the first record of CacheDBM while it is
 locked

---
 tkrzw_dbm_cache.cc | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index d077fcc..2c64150 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -416,37 +416,23 @@ void CacheSlot::ProcessImpl(
 }
 
 bool CacheSlot::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
+  std::lock_guard<SpinMutex> lock(mutex_);
+  char* ptr = first_;
+  if (ptr == nullptr) {
+    return false;
+  }
+  CacheRecord rec;
+  rec.Deserialize(ptr);
   if (writable) {
-    bool hit = false;
-    std::string key;
-    {
-      std::lock_guard<SpinMutex> lock(mutex_);
-      char* ptr = first_;
-      if (ptr != nullptr) {
-        CacheRecord rec;
-        rec.Deserialize(ptr);
-        key = std::string(rec.key_ptr, rec.key_size);
-        hit = true;
-      }
-    }
-    if (hit) {
-      const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      Process(key, hash, proc, true);
-      return true;
-    }
+    const std::string key(rec.key_ptr, rec.key_size);
+    const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
+    ProcessImpl(key, hash, proc, true);
   } else {
-    std::lock_guard<SpinMutex> lock(mutex_);
-    char* ptr = first_;
-    if (ptr != nullptr) {
-      CacheRecord rec;
-      rec.Deserialize(ptr);
-      const std::string_view key(rec.key_ptr, rec.key_size);
-      const std::string_view value(rec.value_ptr, rec.value_size);
-      proc->ProcessFull(key, value);
-      return true;
-    }
+    const std::string_view key(rec.key_ptr, rec.key_size);
+    const std::string_view value(rec.value_ptr, rec.value_size);
+    proc->ProcessFull(key, value);
   }
-  return false;
+  return true;
 }
 
 void CacheSlot::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
-- 
2.43.0


From 2f91f23a7d45ef2cf4f39cc6d1628b3495cbb4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:34 +0000
Subject: [PATCH 046/115] fix: count records replaced during rebuilding of
 HashDBM in the appending mode

---
 tkrzw_dbm_hash.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index cc74e01..9b2dca7 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1493,7 +1493,7 @@ Status HashDBMImpl::ProcessImpl(
             rec.SetData(HashRecord::OP_VOID, old_rec_size, "", 0, "", 0, 0);
             new_rec_size = rec.GetWholeSize();
           } else {
-            rec.SetData(old_is_set ? HashRecord::OP_SET : HashRecord::OP_ADD,
+            rec.SetData(HashRecord::OP_ADD,
                         old_rec_size, key.data(), key.size(),
                         new_value.data(), new_value.size(), child_offset);
             new_rec_size = rec.GetWholeSize();
@@ -1527,7 +1527,7 @@ Status HashDBMImpl::ProcessImpl(
             rec.SetData(HashRecord::OP_REMOVE, 0, key.data(), key.size(), "", 0, new_child_offset);
             new_rec_size = rec.GetWholeSize();
           } else {
-            rec.SetData(old_is_set ? HashRecord::OP_SET : HashRecord::OP_ADD,
+            rec.SetData(!in_place && old_is_set ? HashRecord::OP_SET : HashRecord::OP_ADD,
                         0, key.data(), key.size(),
                         new_value.data(), new_value.size(), new_child_offset);
             new_rec_size = rec.GetWholeSize();
@@ -1541,7 +1541,7 @@ Status HashDBMImpl::ProcessImpl(
                 rec.SetData(HashRecord::OP_REMOVE, new_rec_size, key.data(), key.size(),
                             "", 0, new_child_offset);
               } else {
-                rec.SetData(HashRecord::OP_SET, new_rec_size, key.data(), key.size(),
+                rec.SetData(HashRecord::OP_ADD, new_rec_size, key.data(), key.size(),
                             new_value.data(), new_value.size(), new_child_offset);
               }
               new_offset = fb.offset;
-- 
2.43.0


From f0ec13db397db5a6bfa092fc91bd5fe7ad61702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:34 +0000
Subject: [PATCH 047/115] fix: retry ShardDBM::ProcessFirst when the first
 record is removed by others

---
 tkrzw_dbm_shard.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 7ffc2d9..4b2cfe2 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -198,11 +198,19 @@ Status ShardDBM::Append(std::string_view key, std::string_view value, std::strin
 Status ShardDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
   assert(proc != nullptr);
   std::unique_ptr<ShardDBM::Iterator> iter(new Iterator(&dbms_));
-  Status status = iter->First();
-  if (status != Status::SUCCESS) {
-    return status;
+  while (true) {
+    Status status = iter->First();
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+    if (iter->heap_.empty()) {
+      return Status(Status::NOT_FOUND_ERROR);
+    }
+    status = iter->Process(proc, writable);
+    if (status != Status::NOT_FOUND_ERROR) {
+      return status;
+    }
   }
-  return iter->Process(proc, writable);
 }
 
 Status ShardDBM::ProcessMulti(
-- 
2.43.0


From a6859cece948feb13a104084da941f3bac951463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:50 +0000
Subject: [PATCH 048/115] fix: lock partial blocks written by
 PositionalParallelFile

---
 tkrzw_file_pos.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 0d4b8ab..cbf1a13 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -104,6 +104,7 @@ class PositionalParallelFileImpl final {
   double alloc_inc_factor_;
   std::unique_ptr<PageCache> page_cache_;
   std::mutex mutex_;
+  std::mutex block_mutex_;
 };
 
 PositionalParallelFileImpl::PositionalParallelFileImpl()
@@ -112,7 +113,7 @@ PositionalParallelFileImpl::PositionalParallelFileImpl()
       block_size_(1), access_options_(0),
       alloc_init_size_(File::DEFAULT_ALLOC_INIT_SIZE),
       alloc_inc_factor_(File::DEFAULT_ALLOC_INC_FACTOR),
-      page_cache_(nullptr), mutex_() {}
+      page_cache_(nullptr), mutex_(), block_mutex_() {}
 
 PositionalParallelFileImpl::~PositionalParallelFileImpl() {
   if (fd_ >= 0) {
@@ -630,6 +631,7 @@ Status PositionalParallelFileImpl::WriteImpl(int64_t off, const char* buf, size_
   const int64_t off_rem = off % block_size_;
   const int64_t end_rem = end_position % block_size_;
   if (off_rem > 0 || end_rem > 0) {
+    std::lock_guard<std::mutex> lock(block_mutex_);
     const int64_t mod_off = off - off_rem;
     const int64_t end_len = end_rem > 0 ? block_size_ - end_rem : 0;
     const int64_t mod_end = end_position + end_len;
-- 
2.43.0


From dba22de3c7931b5297436c3ca88af581cf6e4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:52 +0000
Subject: [PATCH 049/115] fix: lock records read by ProcessFirst and
 ProcessEach of TinyDBM

---
 tkrzw_dbm_tiny.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index c05e1ca..16af9c9 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -328,6 +328,7 @@ Status TinyDBMImpl::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
+      ScopedHashLock record_lock(record_mutex_, bucket_index, false);
       char* ptr = buckets_[bucket_index];
       if (ptr != nullptr) {
         rec.Deserialize(ptr);
@@ -361,6 +362,7 @@ Status TinyDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
+      ScopedHashLock record_lock(record_mutex_, bucket_index, false);
       char* ptr = buckets_[bucket_index];
       while (ptr != nullptr) {
         rec.Deserialize(ptr);
-- 
2.43.0


From 34bb040d694f5a479af84254ef87b426774ec84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 050/115] fix: skip records removed in the meantime when
 traversals of ShardDBM start

---
 tkrzw_dbm_shard.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 4b2cfe2..e9c26a3 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -677,6 +677,7 @@ Status ShardDBM::Iterator::ReadSlot(ShardSlot* slot) {
 
 Status ShardDBM::Iterator::First() {
   heap_.clear();
+  asc_ = true;
   for (auto& slot : slots_) {
     const Status status = slot.iter->First();
     if (status != Status::SUCCESS) {
@@ -684,7 +685,7 @@ Status ShardDBM::Iterator::First() {
     }
   }
   for (auto& slot : slots_) {
-    const Status status = slot.iter->Get(&slot.key, &slot.value);
+    const Status status = ReadSlot(&slot);
     if (status == Status::SUCCESS) {
       heap_.emplace_back(&slot);
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
@@ -693,12 +694,12 @@ Status ShardDBM::Iterator::First() {
       return status;
     }
   }
-  asc_ = true;
   return Status(Status::SUCCESS);
 }
 
 Status ShardDBM::Iterator::Last() {
   heap_.clear();
+  asc_ = false;
   for (auto& slot : slots_) {
     const Status status = slot.iter->Last();
     if (status != Status::SUCCESS) {
@@ -706,7 +707,7 @@ Status ShardDBM::Iterator::Last() {
     }
   }
   for (auto& slot : slots_) {
-    const Status status = slot.iter->Get(&slot.key, &slot.value);
+    const Status status = ReadSlot(&slot);
     if (status == Status::SUCCESS) {
       heap_.emplace_back(&slot);
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, false));
@@ -715,12 +716,12 @@ Status ShardDBM::Iterator::Last() {
       return status;
     }
   }
-  asc_ = false;
   return Status(Status::SUCCESS);
 }
 
 Status ShardDBM::Iterator::Jump(std::string_view key) {
   heap_.clear();
+  asc_ = true;
   bool missing = false;
   for (auto& slot : slots_) {
     Status status = slot.iter->Jump(key);
@@ -731,7 +732,7 @@ Status ShardDBM::Iterator::Jump(std::string_view key) {
       missing = true;
       continue;
     }
-    status = slot.iter->Get(&slot.key, &slot.value);
+    status = ReadSlot(&slot);
     if (status == Status::SUCCESS) {
       heap_.emplace_back(&slot);
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
@@ -740,7 +741,6 @@ Status ShardDBM::Iterator::Jump(std::string_view key) {
       return status;
     }
   }
-  asc_ = true;
   if (missing && heap_.empty()) {
     return Status(Status::NOT_FOUND_ERROR);
   }
@@ -749,6 +749,7 @@ Status ShardDBM::Iterator::Jump(std::string_view key) {
 
 Status ShardDBM::Iterator::JumpLower(std::string_view key, bool inclusive) {
   heap_.clear();
+  asc_ = false;
   for (auto& slot : slots_) {
     Status status = slot.iter->JumpLower(key, inclusive);
     if (status != Status::SUCCESS) {
@@ -757,7 +758,7 @@ Status ShardDBM::Iterator::JumpLower(std::string_view key, bool inclusive) {
       }
       continue;
     }
-    status = slot.iter->Get(&slot.key, &slot.value);
+    status = ReadSlot(&slot);
     if (status == Status::SUCCESS) {
       heap_.emplace_back(&slot);
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, false));
@@ -766,12 +767,12 @@ Status ShardDBM::Iterator::JumpLower(std::string_view key, bool inclusive) {
       return status;
     }
   }
-  asc_ = false;
   return Status(Status::SUCCESS);
 }
 
 Status ShardDBM::Iterator::JumpUpper(std::string_view key, bool inclusive) {
   heap_.clear();
+  asc_ = true;
   for (auto& slot : slots_) {
     Status status = slot.iter->JumpUpper(key, inclusive);
     if (status != Status::SUCCESS) {
@@ -780,7 +781,7 @@ Status ShardDBM::Iterator::JumpUpper(std::string_view key, bool inclusive) {
       }
       continue;
     }
-    status = slot.iter->Get(&slot.key, &slot.value);
+    status = ReadSlot(&slot);
     if (status == Status::SUCCESS) {
       heap_.emplace_back(&slot);
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
@@ -789,7 +790,6 @@ Status ShardDBM::Iterator::JumpUpper(std::string_view key, bool inclusive) {
       return status;
     }
   }
-  asc_ = true;
   return Status(Status::SUCCESS);
 }
 
-- 
2.43.0


From 6d4299173098768f99e1e7673c33a5afcc3ffa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 051/115] fix: synchronize accesses to the file of HashDBM with
 its rebuilding

---
 tkrzw_dbm_hash.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 9b2dca7..13f35d1 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -516,8 +516,8 @@ Status HashDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
       return Status(Status::PRECONDITION_ERROR, "not healthy database");
     }
   }
+  ScopedHashLock record_lock(record_mutex_, writable);
   if (!writable && (static_flags_ & STATIC_FLAG_UPDATE_IN_PLACE)) {
-    ScopedHashLock record_lock(record_mutex_, writable);
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     const int64_t end_offset = file_->GetSizeSimple();
     int64_t offset = record_base_;
@@ -551,7 +551,6 @@ Status HashDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     return Status(Status::SUCCESS);
   }
-  ScopedHashLock record_lock(record_mutex_, writable);
   proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
   for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
     int64_t current_offset = 0;
@@ -631,6 +630,7 @@ Status HashDBMImpl::GetFileSize(int64_t* size) {
   if (!open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
+  ScopedHashLock record_lock(record_mutex_, "", false);
   *size = file_->GetSizeSimple();
   return Status(Status::SUCCESS);
 }
@@ -726,6 +726,7 @@ Status HashDBMImpl::ShouldBeRebuilt(bool* tobe) {
     }
     rebuild_mutex_.unlock();
   }
+  ScopedHashLock record_lock(record_mutex_, "", false);
   const int64_t record_section_size = file_->GetSizeSimple() - record_base_;
   const int64_t min_record_size = sizeof(uint8_t) + offset_width_ + sizeof(uint8_t) * 3;
   const int64_t total_record_size = eff_data_size_.load() + min_record_size * num_records_.load();
@@ -776,6 +777,7 @@ std::vector<std::pair<std::string, std::string>> HashDBMImpl::Inspect() {
   };
   Add("class", "HashDBM");
   if (open_) {
+    ScopedHashLock record_lock(record_mutex_, "", false);
     Add("healthy", ToString(healthy_));
     Add("auto_restored", ToString(auto_restored_));
     Add("path", path_);
@@ -856,6 +858,7 @@ bool HashDBMImpl::IsAutoRestored() {
 
 std::unique_ptr<DBM> HashDBMImpl::MakeDBM() {
   std::shared_lock<SpinSharedMutex> lock(mutex_);
+  ScopedHashLock record_lock(record_mutex_, "", false);
   return std::make_unique<HashDBM>(file_->MakeFile());
 }
 
@@ -886,6 +889,7 @@ int32_t HashDBMImpl::GetDatabaseType() {
   if (!open_) {
     return -1;
   }
+  ScopedHashLock record_lock(record_mutex_, "", false);
   return db_type_;
 }
 
@@ -906,6 +910,7 @@ std::string HashDBMImpl::GetOpaqueMetadata() {
   if (!open_) {
     return "";
   }
+  ScopedHashLock record_lock(record_mutex_, "", false);
   return opaque_;
 }
 
-- 
2.43.0


From ae8111150efef57f0c724ef63b197a3ccfca0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:51 +0000
Subject: [PATCH 052/115] fix: allocate the physical space of positional files
 without the increasing factor

---
 tkrzw_file_pos.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index cbf1a13..32a1ce9 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -543,13 +543,12 @@ Status PositionalParallelFileImpl::AllocateSpace(int64_t min_size) {
   if (min_size <= trunc_size_.load()) {
     return Status(Status::SUCCESS);
   }
-  if (alloc_inc_factor_ <= 0) {
-    trunc_size_.store(min_size);
-    return Status(Status::SUCCESS);
+  int64_t new_trunc_size = min_size;
+  if (alloc_inc_factor_ > 0) {
+    new_trunc_size =
+        std::max(min_size, static_cast<int64_t>(trunc_size_.load() * alloc_inc_factor_));
+    new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
-  int64_t new_trunc_size =
-      std::max(min_size, static_cast<int64_t>(trunc_size_.load() * alloc_inc_factor_));
-  new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   const Status status = TruncateFile(fd_, new_trunc_size);
   if (status != Status::SUCCESS) {
     return status;
@@ -1245,13 +1244,12 @@ Status PositionalAtomicFileImpl::AllocateSpace(int64_t min_size) {
   if (min_size <= trunc_size_) {
     return Status(Status::SUCCESS);
   }
-  if (alloc_inc_factor_ <= 0) {
-    trunc_size_ = min_size;
-    return Status(Status::SUCCESS);
+  int64_t new_trunc_size = min_size;
+  if (alloc_inc_factor_ > 0) {
+    new_trunc_size =
+        std::max(min_size, static_cast<int64_t>(trunc_size_ * alloc_inc_factor_));
+    new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
-  int64_t new_trunc_size =
-      std::max(min_size, static_cast<int64_t>(trunc_size_ * alloc_inc_factor_));
-  new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   const Status status = TruncateFile(fd_, new_trunc_size);
   if (status != Status::SUCCESS) {
     return status;
-- 
2.43.0


From 37351d99f4502000bfad6190d3cb226414a9fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:18 +0000
Subject: [PATCH 053/115] fix: discard the truncated data in the head buffer of
 positional files

---
 tkrzw_file_pos.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 32a1ce9..457f6c0 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -372,6 +372,9 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
   if (status == Status::SUCCESS) {
     file_size_.store(size);
     trunc_size_.store(new_trunc_size);
+    if (size < head_buffer_size_) {
+      std::memset(head_buffer_ + size, 0, head_buffer_size_ - size);
+    }
   }
   if (page_cache_ != nullptr) {
     page_cache_->SetRegionSize(trunc_size_.load());
@@ -1065,6 +1068,9 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
   if (status == Status::SUCCESS) {
     file_size_ = size;
     trunc_size_ = new_trunc_size;
+    if (size < head_buffer_size_) {
+      std::memset(head_buffer_ + size, 0, head_buffer_size_ - size);
+    }
   }
   if (page_cache_ != nullptr) {
     page_cache_->SetRegionSize(trunc_size_);
-- 
2.43.0


From facd8e96ef4982623b61b8ab5c505bf3967effda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 054/115] fix: set the old size when expanding StdFile by
 nothing

---
 tkrzw_file_std.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_file_std.cc b/tkrzw_file_std.cc
index d493a00..514f77b 100644
--- a/tkrzw_file_std.cc
+++ b/tkrzw_file_std.cc
@@ -419,6 +419,9 @@ Status StdFileImpl::AppendImpl(const void* buf, size_t size, int64_t* off) {
 
 Status StdFileImpl::ExpandImpl(size_t inc_size, int64_t* old_size) {
   if (inc_size == 0) {
+    if (old_size != nullptr) {
+      *old_size = file_size_;
+    }
     return Status(Status::SUCCESS);
   }
   file_->clear();
-- 
2.43.0


From 4a0acb1b0246554dd276bfae84078ba8b4d76c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:12 +0000
Subject: [PATCH 055/115] fix: reflect the size of StdFile in its
 synchronization

---
 tkrzw_file_std.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tkrzw_file_std.cc b/tkrzw_file_std.cc
index 514f77b..f95d882 100644
--- a/tkrzw_file_std.cc
+++ b/tkrzw_file_std.cc
@@ -184,7 +184,18 @@ Status StdFileImpl::Synchronize(bool hard, int64_t off, int64_t size) {
   if (file_ == nullptr) {
     return Status(Status::PRECONDITION_ERROR, "not opened file");
   }
-  return Status(Status::SUCCESS);
+  Status status(Status::SUCCESS);
+  if (writable_) {
+    file_->clear();
+    file_->flush();
+    if (!file_->good()) {
+      status |= Status(Status::SYSTEM_ERROR, "flush failed");
+    }
+    if (!path_.empty() && PathIsFile(path_)) {
+      status |= TruncateFile(path_, file_size_);
+    }
+  }
+  return status;
 }
 
 Status StdFileImpl::GetSize(int64_t* size) {
-- 
2.43.0


From 617ccea41b5dfcbc997f4e125839288777f77b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:43 +0000
Subject: [PATCH 056/115] fix: align the truncated size of positional files
 without the increasing factor

---
 tkrzw_file_pos.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 457f6c0..d7805d9 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -360,7 +360,7 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
   }
   int64_t new_trunc_size = 0;
   if (alloc_inc_factor_ <= 0) {
-    new_trunc_size = std::max(size, alloc_init_size_);
+    new_trunc_size = AlignNumber(std::max(size, alloc_init_size_), block_size_);
   } else {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
@@ -1056,7 +1056,7 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
   }
   int64_t new_trunc_size = 0;
   if (alloc_inc_factor_ <= 0) {
-    new_trunc_size = std::max(size, alloc_init_size_);
+    new_trunc_size = AlignNumber(std::max(size, alloc_init_size_), block_size_);
   } else {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
-- 
2.43.0


From 1c8fe3d798dab7de24f1f661fe11065db5f813df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 057/115] fix: get values less than the default one from
 StdIndex

---
 tkrzw_index.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tkrzw_index.h b/tkrzw_index.h
index b549083..2556cba 100644
--- a/tkrzw_index.h
+++ b/tkrzw_index.h
@@ -14,6 +14,7 @@
 #ifndef _TKRZW_INDEX_H
 #define _TKRZW_INDEX_H
 
+#include <iterator>
 #include <list>
 #include <shared_mutex>
 #include <set>
@@ -1293,7 +1294,10 @@ inline std::vector<VALUETYPE> StdIndex<KEYTYPE, VALUETYPE, CMPTYPE>::GetValues(
   std::shared_lock<std::shared_timed_mutex> lock(mutex_);
   const auto& const_records = records_;
   std::vector<VALUETYPE> values;
-  auto it = records_.lower_bound(std::make_pair(key, VALUETYPE()));
+  auto it = const_records.lower_bound(std::make_pair(key, VALUETYPE()));
+  while (it != const_records.begin() && std::prev(it)->first == key) {
+    --it;
+  }
   while (it != const_records.end()) {
     if (max > 0 && values.size() >= max) {
       break;
-- 
2.43.0


From 7563823c7b4255de022e3871d4ed5e85d1009d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:57 +0000
Subject: [PATCH 058/115] fix: expand positional files without the increasing
 factor by writing the end

---
 tkrzw_file_pos.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index d7805d9..de71bb2 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -341,6 +341,9 @@ Status PositionalParallelFileImpl::Append(const void* buf, size_t size, int64_t*
     *off = position;
   }
   if (buf == nullptr) {
+    if (alloc_inc_factor_ <= 0 && block_size_ == 1 && size > 0) {
+      return WriteImpl(position + size - 1, "", 1);
+    }
     return Status(Status::SUCCESS);
   }
   return WriteImpl(position, static_cast<const char*>(buf), size);
@@ -546,6 +549,10 @@ Status PositionalParallelFileImpl::AllocateSpace(int64_t min_size) {
   if (min_size <= trunc_size_.load()) {
     return Status(Status::SUCCESS);
   }
+  if (alloc_inc_factor_ <= 0 && block_size_ == 1) {
+    trunc_size_.store(min_size);
+    return Status(Status::SUCCESS);
+  }
   int64_t new_trunc_size = min_size;
   if (alloc_inc_factor_ > 0) {
     new_trunc_size =
@@ -1036,6 +1043,9 @@ Status PositionalAtomicFileImpl::Append(const void* buf, size_t size, int64_t* o
     *off = position;
   }
   if (buf == nullptr) {
+    if (alloc_inc_factor_ <= 0 && block_size_ == 1 && size > 0) {
+      return WriteImpl(position + size - 1, "", 1);
+    }
     return Status(Status::SUCCESS);
   }
   return WriteImpl(position, static_cast<const char*>(buf), size);
@@ -1250,6 +1260,10 @@ Status PositionalAtomicFileImpl::AllocateSpace(int64_t min_size) {
   if (min_size <= trunc_size_) {
     return Status(Status::SUCCESS);
   }
+  if (alloc_inc_factor_ <= 0 && block_size_ == 1) {
+    trunc_size_ = min_size;
+    return Status(Status::SUCCESS);
+  }
   int64_t new_trunc_size = min_size;
   if (alloc_inc_factor_ > 0) {
     new_trunc_size =
-- 
2.43.0


From 908d368d9c2407465953edf50aaffc7bcfd800eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:27 +0000
Subject: [PATCH 059/115] fix: let a failure of opening a message queue leave
 it closed and ignore broken metadata on demand

---
 tkrzw_message_queue.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 1edab0c..b7bff8e 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -186,6 +186,7 @@ Status MessageQueueImpl::Open(
   status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
                         &check_file_size);
   if (status != Status::SUCCESS) {
+    files_.clear();
     return status;
   }
   if (cyclic_magic_ < 0) {
@@ -194,6 +195,7 @@ Status MessageQueueImpl::Open(
       status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
                             &check_file_size);
       if (status != Status::SUCCESS) {
+        files_.clear();
         return status;
       }
     }
@@ -206,14 +208,16 @@ Status MessageQueueImpl::Open(
   }
   if (status != Status::SUCCESS) {
     if (options & MessageQueue::OPEN_IGNORE_BROKEN) {
+      status.Set(Status::SUCCESS);
       check_file_size = -1;
     } else {
+      files_.clear();
       return status;
     }
   }
   const int64_t act_file_size = last_file->GetSizeSimple();
   if (check_file_size != act_file_size) {
-    if (!read_only_) {
+    if (!read_only_ || check_file_size < 0) {
       int64_t offset = METADATA_SIZE;
       int64_t timestamp = 0;
       std::string message;
@@ -236,6 +240,7 @@ Status MessageQueueImpl::Open(
     }
   }
   if (status != Status::SUCCESS) {
+    files_.clear();
     return status;
   }
   last_file_ = last_file;
-- 
2.43.0


From 83ff2c20ddf48eb7f12f74f8990f627a7b024ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:27 +0000
Subject: [PATCH 060/115] fix: keep timestamps of a message queue monotonic
 after a crash

---
 tkrzw_message_queue.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index b7bff8e..1e931de 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -175,6 +175,13 @@ Status MessageQueueImpl::Open(
     return status;
   }
   if (last_file->GetSizeSimple() == 0) {
+    timestamp_ = 0;
+    if (file_paths.size() > 1) {
+      int64_t prev_file_id = 0;
+      int64_t prev_file_size = 0;
+      MessageQueue::ReadFileMetadata(
+          file_paths[file_paths.size() - 2], &prev_file_id, &timestamp_, &prev_file_size);
+    }
     status = SynchronizeImpl(sync_hard_);
     if (status != Status::SUCCESS) {
       files_.clear();
@@ -221,10 +228,13 @@ Status MessageQueueImpl::Open(
       int64_t offset = METADATA_SIZE;
       int64_t timestamp = 0;
       std::string message;
+      check_file_size = offset;
       while (MessageQueue::ReadNextMessage(
-                 last_file.get(), &offset, &timestamp, &message, INT64MAX) == Status::SUCCESS) {
+                 last_file.get(), &offset, &timestamp, &message, INT64MAX) == Status::SUCCESS &&
+             offset <= act_file_size) {
+        check_file_size = offset;
+        timestamp_ = std::max(timestamp_, timestamp);
       }
-      check_file_size = offset;
     }
     if (check_file_size == act_file_size ||
         (options & MessageQueue::OPEN_IGNORE_BROKEN) ||
-- 
2.43.0


From 066bf50e05c4a7d0de5d6a504fbf7141aa2b4733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:27 +0000
Subject: [PATCH 061/115] fix: do not read the last messages of a read-only
 message queue again

---
 tkrzw_message_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 1e931de..bc10833 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -510,7 +510,7 @@ Status MessageQueueReaderImpl::Read(int64_t* timestamp, std::string* message, do
         }
       }
       file_ = file_sp;
-      file_offset_ = METADATA_SIZE;
+      file_offset_ = std::max<int64_t>(file_offset_, METADATA_SIZE);
     }
     if (file_offset_ + static_cast<int64_t>(RECORD_HEADER_SIZE) > file_->GetSizeSimple()) {
       if (file_id_ == queue_->last_file_id_) {
-- 
2.43.0


From b57c8ce49e01ed6c52e09b3e32f1e9d4adc2eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:27 +0000
Subject: [PATCH 062/115] fix: ignore files which are not of the message queue
 though their names begin alike

---
 tkrzw_message_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index bc10833..9c4ab8b 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -637,7 +637,7 @@ Status MessageQueue::FindFiles(const std::string& prefix, std::vector<std::strin
   for (const auto& child : children) {
     if (StrBeginsWith(child, prefix_base)) {
       const std::string suffix = child.substr(prefix_base.size());
-      if (StrSearchRegex(suffix, "^\\.\\d{10}") >= 0) {
+      if (StrSearchRegex(suffix, "^\\.\\d{10,}$") >= 0) {
         paths->emplace_back(JoinPath(dir_path, child));
       }
     }
-- 
2.43.0


From 067c5badb0438781f6e45b82291ababaac6f62c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 063/115] fix: ignore an incomplete header of the last file of
 a message queue on demand

---
 tkrzw_message_queue.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 9c4ab8b..12b75b8 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -174,7 +174,10 @@ Status MessageQueueImpl::Open(
     files_.clear();
     return status;
   }
-  if (last_file->GetSizeSimple() == 0) {
+  const int64_t init_file_size = last_file->GetSizeSimple();
+  if (init_file_size == 0 ||
+      ((options & MessageQueue::OPEN_IGNORE_BROKEN) && !read_only_ &&
+       init_file_size < METADATA_SIZE)) {
     timestamp_ = 0;
     if (file_paths.size() > 1) {
       int64_t prev_file_id = 0;
-- 
2.43.0


From 8187f0e1b0962499897b94fa9802fa18e0f20140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:58 +0000
Subject: [PATCH 064/115] fix: fix: check the messages behind the metadata when
 a message queue is recovered

---
 tkrzw_message_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 12b75b8..24fec61 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -233,7 +233,7 @@ Status MessageQueueImpl::Open(
       std::string message;
       check_file_size = offset;
       while (MessageQueue::ReadNextMessage(
-                 last_file.get(), &offset, &timestamp, &message, INT64MAX) == Status::SUCCESS &&
+                 last_file.get(), &offset, &timestamp, &message) == Status::SUCCESS &&
              offset <= act_file_size) {
         check_file_size = offset;
         timestamp_ = std::max(timestamp_, timestamp);
-- 
2.43.0


From 779691f159216d833ff260ba7718809ec5c7d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:55 +0000
Subject: [PATCH 065/115] fix: fix: refuse messages of a read-only message
 queue

---
 tkrzw_message_queue.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 24fec61..45901fa 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -304,6 +304,9 @@ Status MessageQueueImpl::Write(int64_t timestamp, std::string_view message) {
     if (files_.empty()) {
       return Status(Status::PRECONDITION_ERROR, "not opened message queue");
     }
+    if (read_only_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable message queue");
+    }
     Status status = WriteImpl(timestamp, message);
     if (status != Status::SUCCESS) {
       return status;
-- 
2.43.0


From 6c8c5cb6710c4951eab74a11b7ca0cc992f44ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:55 +0000
Subject: [PATCH 066/115] fix: fix: keep the last file of a message queue in
 use when the next file cannot be made

---
 tkrzw_message_queue.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 45901fa..a23669b 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -422,18 +422,25 @@ Status MessageQueueImpl::WriteImpl(int64_t timestamp, std::string_view message)
       return status;
     }
     ReleaseFiles();
+    auto new_file = std::make_shared<PositionalParallelFile>();
+    const std::string new_file_path = MakeFilePath(last_file_id_ + 1);
+    new_file->SetAllocationStrategy(0, 0);
+    status = new_file->Open(new_file_path, true, MessageQueue::OPEN_TRUNCATE);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
     last_file_id_++;
-    auto& last_file_sp = files_[last_file_id_];
-    last_file_sp = std::make_unique<PositionalParallelFile>();
-    last_file = last_file_sp.get();
-    const std::string new_file_path = MakeFilePath(last_file_id_);
-    last_file->SetAllocationStrategy(0, 0);
-    status = last_file->Open(new_file_path, true, MessageQueue::OPEN_TRUNCATE);
-    status |= SynchronizeImpl(sync_hard_);
+    files_[last_file_id_] = new_file;
+    status = SynchronizeImpl(sync_hard_);
     if (status != Status::SUCCESS) {
+      files_.erase(last_file_id_);
+      last_file_id_--;
+      new_file->Close();
+      RemoveFile(new_file_path);
       return status;
     }
-    last_file_ = last_file_sp;
+    last_file_ = new_file;
+    last_file = new_file.get();
   }
   timestamp_ = std::max(timestamp, timestamp_);
   const size_t est_size = RECORD_HEADER_SIZE + message.size() + 1;
-- 
2.43.0


From b74720eb6d01c39552b02d6f0e3ecca8233b0b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:37 +0000
Subject: [PATCH 067/115] fix: apply update logs from files without messages

---
 tkrzw_dbm_ulog.cc      | 2 +-
 tkrzw_message_queue.cc | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index f1101ab..9182f5d 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -356,7 +356,7 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
           &file, &file_offset, &timestamp, &message);
       if (status != Status::SUCCESS) {
         if (status == Status::CANCELED_ERROR) {
-          continue;
+          break;
         }
         return status;
       }
diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index a23669b..78f0a22 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -719,6 +719,9 @@ Status MessageQueue::ReadNextMessage(
   if (*file_offset <= METADATA_SIZE) {
     *file_offset = METADATA_SIZE;
   }
+  if (*file_offset >= file->GetSizeSimple()) {
+    return Status(Status::CANCELED_ERROR);
+  }
   char header[RECORD_HEADER_SIZE];
   Status status = file->Read(*file_offset, header, sizeof(header));
   if (status != Status::SUCCESS) {
-- 
2.43.0


From 051e69807dada08d74a465ea929c89c987384971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:03 +0000
Subject: [PATCH 068/115] fix: return the status of the database when an update
 log is applied

---
 tkrzw_dbm_ulog.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index 9182f5d..d0b77b6 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -314,6 +314,9 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
       break;
     case OP_REMOVE:
       status = dbm->Remove(op.key);
+      if (status == Status::NOT_FOUND_ERROR) {
+        status.Set(Status::SUCCESS);
+      }
       break;
     case OP_CLEAR:
       status = dbm->Clear();
@@ -321,7 +324,7 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
     default:
       break;
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
-- 
2.43.0


From 2223db92b29de8b0fa408f85880d845bec764630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:03 +0000
Subject: [PATCH 069/115] fix: let SetUpdateLogger of ShardDBM accept the null
 pointer

---
 tkrzw_dbm_shard.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index e9c26a3..b59ff0f 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -625,7 +625,7 @@ void ShardDBM::SetUpdateLogger(UpdateLogger* update_logger) {
       dbm->SetUpdateLogger(update_logger);
       first = false;
     } else {
-      dbm->SetUpdateLogger(&ulog_second_);
+      dbm->SetUpdateLogger(update_logger == nullptr ? nullptr : &ulog_second_);
     }
   }
 }
-- 
2.43.0


From 1f7d57c6bb29efa210ede9dbdb0a86b409f72fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 070/115] fix: check the sizes in update logs without overflow

---
 tkrzw_dbm_ulog.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index d0b77b6..b8c976d 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -233,7 +233,7 @@ Status DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view message, UpdateLog* op
       if (step < 1) {
         return Status(Status::BROKEN_DATA_ERROR, "invalid key size");
       }
-      const int32_t key_size = num;
+      const uint64_t key_size = num;
       rp += step;
       record_size -= step;
       if (record_size < 1) {
@@ -243,10 +243,11 @@ Status DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view message, UpdateLog* op
       if (step < 1) {
         return Status(Status::BROKEN_DATA_ERROR, "invalid value size");
       }
-      const int32_t value_size = num;
+      const uint64_t value_size = num;
       rp += step;
       record_size -= step;
-      if (key_size + value_size != record_size) {
+      if (key_size > static_cast<uint64_t>(record_size) ||
+          value_size != static_cast<uint64_t>(record_size) - key_size) {
         return Status(Status::BROKEN_DATA_ERROR, "inconsistent data size");
       }
       op->op_type = OP_SET;
@@ -262,10 +263,10 @@ Status DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view message, UpdateLog* op
       if (step < 1) {
         return Status(Status::BROKEN_DATA_ERROR, "invalid key size");
       }
-      const int32_t key_size = num;
+      const uint64_t key_size = num;
       rp += step;
       record_size -= step;
-      if (key_size != record_size) {
+      if (key_size != static_cast<uint64_t>(record_size)) {
         return Status(Status::BROKEN_DATA_ERROR, "inconsistent data size");
       }
       op->op_type = OP_REMOVE;
-- 
2.43.0


From 1237afac52dd3ffcae00fd93f02ad943f1d139f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:04 +0000
Subject: [PATCH 071/115] fix: pass the overwrite flag in AsyncDBM::SetMulti
 with a map of strings

---
 tkrzw_dbm_async.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_async.h b/tkrzw_dbm_async.h
index 77479f4..1e37074 100644
--- a/tkrzw_dbm_async.h
+++ b/tkrzw_dbm_async.h
@@ -223,7 +223,7 @@ class AsyncDBM final {
    */
   std::future<Status> SetMulti(
       const std::map<std::string, std::string>& records, bool overwrite = true) {
-    return SetMulti(MakeStrViewMapFromRecords(records));
+    return SetMulti(MakeStrViewMapFromRecords(records), overwrite);
   }
 
   /**
-- 
2.43.0


From d41de9f9d267df5506fd37782b895cbe2200cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:24 +0000
Subject: [PATCH 072/115] fix: free the previous key of tree iterators

---
 tkrzw_dbm_baby.cc | 4 ++++
 tkrzw_dbm_tree.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 7dcff20..affe4fa 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1303,8 +1303,12 @@ bool BabyDBMIteratorImpl::SetPositionLast(BabyLeafNode* leaf_node) {
 }
 
 void BabyDBMIteratorImpl::SetPositionWithKey(BabyLeafNode* leaf_node, std::string_view key) {
+  char* old_key_ptr = key_ptr_;
   key_ptr_ = key.size() > sizeof(stack_) ? new char[key.size()] : stack_;
   std::memcpy(key_ptr_, key.data(), key.size());
+  if (old_key_ptr != stack_) {
+    delete[] old_key_ptr;
+  }
   key_size_ = key.size();
   leaf_node_ = leaf_node;
 }
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 9ade1b2..a20b09e 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2355,8 +2355,12 @@ Status TreeDBMIteratorImpl::SetPositionLast(int64_t leaf_id) {
 }
 
 void TreeDBMIteratorImpl::SetPositionWithKey(int64_t leaf_id, std::string_view key) {
+  char* old_key_ptr = key_ptr_;
   key_ptr_ = key.size() > sizeof(stack_) ? new char[key.size()] : stack_;
   std::memcpy(key_ptr_, key.data(), key.size());
+  if (old_key_ptr != stack_) {
+    delete[] old_key_ptr;
+  }
   key_size_ = key.size();
   leaf_id_ = leaf_id;
 }
-- 
2.43.0


From 9061eb2d5c8e90d6e3fcd861ee88f26216c024f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:01 +0000
Subject: [PATCH 073/115] fix: honour no capacity and clear the result in
 searches by order

---
 tkrzw_dbm_common_impl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_dbm_common_impl.cc b/tkrzw_dbm_common_impl.cc
index 278628e..11d839a 100644
--- a/tkrzw_dbm_common_impl.cc
+++ b/tkrzw_dbm_common_impl.cc
@@ -113,6 +113,10 @@ Status SearchDBMLambda(
 Status SearchDBMOrder(DBM* dbm, std::string_view pattern, bool upper, bool inclusive,
                       std::vector<std::string>* matched, size_t capacity) {
   assert(dbm != nullptr && matched != nullptr);
+  if (capacity == 0) {
+    capacity = SIZE_MAX;
+  }
+  matched->clear();
   auto iter = dbm->MakeIterator();
   Status status =
       upper ? iter->JumpUpper(pattern, inclusive) : iter->JumpLower(pattern, inclusive);
-- 
2.43.0


From 6caf61f96944b1fc94a771db0b3e104e43d2a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 074/115] fix: truncate files only after locking and reopen
 replaced files

---
 tkrzw_file_mmap.cc     | 56 ++++++++------------------------
 tkrzw_file_pos.cc      | 56 ++++++++------------------------
 tkrzw_sys_util_posix.h | 73 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 101 insertions(+), 84 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index e84e424..0f71155 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -103,7 +103,7 @@ Status MemoryMapParallelFileImpl::Open(
     return Status(Status::PRECONDITION_ERROR, "opened file");
   }
 
-  // Opens the file.
+  // Opens and locks the file.
   int32_t oflags = O_RDONLY;
   if (writable) {
     oflags = O_RDWR;
@@ -114,26 +114,12 @@ Status MemoryMapParallelFileImpl::Open(
       oflags |= O_TRUNC;
     }
   }
-  const int32_t fd = open(path.c_str(), oflags, FILEPERM);
-  if (fd < 0) {
-    return GetErrnoStatus("open", errno);
-  }
-
-  // Locks the file.
-  if (!(options & File::OPEN_NO_LOCK)) {
-    struct flock flbuf;
-    std::memset(&flbuf, 0, sizeof(flbuf));
-    flbuf.l_type = writable ? F_WRLCK : F_RDLCK;
-    flbuf.l_whence = SEEK_SET;
-    flbuf.l_start = 0;
-    flbuf.l_len = 0;
-    flbuf.l_pid = 0;
-    const int32_t flcmd = options & File::OPEN_NO_WAIT ? F_SETLK : F_SETLKW;
-    if (fcntl(fd, flcmd, &flbuf) != 0) {
-      const Status status = GetErrnoStatus("fcntl-lock", errno);
-      close(fd);
-      return status;
-    }
+  int32_t fd = -1;
+  const Status open_status = OpenFileWithLock(
+      path, oflags, writable, !(options & File::OPEN_NO_LOCK), !(options & File::OPEN_NO_WAIT),
+      &fd);
+  if (open_status != Status::SUCCESS) {
+    return open_status;
   }
 
   // Checks the file size and type.
@@ -674,7 +660,7 @@ Status MemoryMapAtomicFileImpl::Open(
     return Status(Status::PRECONDITION_ERROR, "opened file");
   }
 
-  // Opens the file.
+  // Opens and locks the file.
   int32_t oflags = O_RDONLY;
   if (writable) {
     oflags = O_RDWR;
@@ -685,26 +671,12 @@ Status MemoryMapAtomicFileImpl::Open(
       oflags |= O_TRUNC;
     }
   }
-  const int32_t fd = open(path.c_str(), oflags, FILEPERM);
-  if (fd < 0) {
-    return GetErrnoStatus("open", errno);
-  }
-
-  // Locks the file.
-  if (!(options & File::OPEN_NO_LOCK)) {
-    struct flock flbuf;
-    std::memset(&flbuf, 0, sizeof(flbuf));
-    flbuf.l_type = writable ? F_WRLCK : F_RDLCK;
-    flbuf.l_whence = SEEK_SET;
-    flbuf.l_start = 0;
-    flbuf.l_len = 0;
-    flbuf.l_pid = 0;
-    const int32_t flcmd = options & File::OPEN_NO_WAIT ? F_SETLK : F_SETLKW;
-    if (fcntl(fd, flcmd, &flbuf) != 0) {
-      const Status status = GetErrnoStatus("fcntl-lock", errno);
-      close(fd);
-      return status;
-    }
+  int32_t fd = -1;
+  const Status open_status = OpenFileWithLock(
+      path, oflags, writable, !(options & File::OPEN_NO_LOCK), !(options & File::OPEN_NO_WAIT),
+      &fd);
+  if (open_status != Status::SUCCESS) {
+    return open_status;
   }
 
   // Checks the file size and type.
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index de71bb2..dba1254 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -126,7 +126,7 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
     return Status(Status::PRECONDITION_ERROR, "opened file");
   }
 
-  // Opens the file.
+  // Opens and locks the file.
   int32_t oflags = O_RDONLY;
   if (writable) {
     oflags = O_RDWR;
@@ -143,32 +143,18 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
   if (access_options_ & PositionalFile::ACCESS_SYNC) {
     oflags |= O_SYNC;
   }
-  const int32_t fd = open(path.c_str(), oflags, FILEPERM);
-  if (fd < 0) {
-    return GetErrnoStatus("open", errno);
+  int32_t fd = -1;
+  const Status open_status = OpenFileWithLock(
+      path, oflags, writable, !(options & File::OPEN_NO_LOCK), !(options & File::OPEN_NO_WAIT),
+      &fd);
+  if (open_status != Status::SUCCESS) {
+    return open_status;
   }
   if (access_options_ & PositionalFile::ACCESS_DIRECT) {
     SetDirectAccessToFileDescriptor(fd);
   }
   AdviseFileRandomAccessPattern(fd);
 
-  // Locks the file.
-  if (!(options & File::OPEN_NO_LOCK)) {
-    struct flock flbuf;
-    std::memset(&flbuf, 0, sizeof(flbuf));
-    flbuf.l_type = writable ? F_WRLCK : F_RDLCK;
-    flbuf.l_whence = SEEK_SET;
-    flbuf.l_start = 0;
-    flbuf.l_len = 0;
-    flbuf.l_pid = 0;
-    const int32_t flcmd = options & File::OPEN_NO_WAIT ? F_SETLK : F_SETLKW;
-    if (fcntl(fd, flcmd, &flbuf) != 0) {
-      const Status status = GetErrnoStatus("fcntl-lock", errno);
-      close(fd);
-      return status;
-    }
-  }
-
   // Checks the file size and type.
   struct stat sbuf;
   if (fstat(fd, &sbuf) != 0) {
@@ -838,7 +824,7 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
     return Status(Status::PRECONDITION_ERROR, "opened file");
   }
 
-  // Opens the file.
+  // Opens and locks the file.
   int32_t oflags = O_RDONLY;
   if (writable) {
     oflags = O_RDWR;
@@ -855,29 +841,15 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
   if (access_options_ & PositionalFile::ACCESS_SYNC) {
     oflags |= O_SYNC;
   }
-  const int32_t fd = open(path.c_str(), oflags, FILEPERM);
-  if (fd < 0) {
-    return GetErrnoStatus("open", errno);
+  int32_t fd = -1;
+  const Status open_status = OpenFileWithLock(
+      path, oflags, writable, !(options & File::OPEN_NO_LOCK), !(options & File::OPEN_NO_WAIT),
+      &fd);
+  if (open_status != Status::SUCCESS) {
+    return open_status;
   }
   AdviseFileRandomAccessPattern(fd);
 
-  // Locks the file.
-  if (!(options & File::OPEN_NO_LOCK)) {
-    struct flock flbuf;
-    std::memset(&flbuf, 0, sizeof(flbuf));
-    flbuf.l_type = writable ? F_WRLCK : F_RDLCK;
-    flbuf.l_whence = SEEK_SET;
-    flbuf.l_start = 0;
-    flbuf.l_len = 0;
-    flbuf.l_pid = 0;
-    const int32_t flcmd = options & File::OPEN_NO_WAIT ? F_SETLK : F_SETLKW;
-    if (fcntl(fd, flcmd, &flbuf) != 0) {
-      const Status status = GetErrnoStatus("fcntl-lock", errno);
-      close(fd);
-      return status;
-    }
-  }
-
   // Checks the file size and type.
   struct stat sbuf;
   if (fstat(fd, &sbuf) != 0) {
diff --git a/tkrzw_sys_util_posix.h b/tkrzw_sys_util_posix.h
index 9ce74f1..4287f5d 100644
--- a/tkrzw_sys_util_posix.h
+++ b/tkrzw_sys_util_posix.h
@@ -20,7 +20,14 @@
 #include <string>
 #include <vector>
 
+#include <cerrno>
 #include <cinttypes>
+#include <cstring>
+
+#include <fcntl.h>
+#include <sys/stat.h>
+#include <sys/types.h>
+#include <unistd.h>
 
 #include "tkrzw_lib_common.h"
 #include "tkrzw_str_util.h"
@@ -96,6 +103,72 @@ inline Status TruncateFile(int32_t fd, int64_t length) {
   return Status(Status::SUCCESS);
 }
 
+/**
+ * Opens a file and locks it.
+ * @param path The path of the file.
+ * @param oflags The flags of the open system call.  O_TRUNC takes effect after the lock is taken.
+ * @param writable True to take an exclusive lock or false to take a shared lock.
+ * @param lock True to lock the file.
+ * @param wait True to wait until the lock is taken.
+ * @param fd The pointer to the variable to store the file descriptor.
+ * @return The result status.
+ * @details If the file is replaced by another process while waiting for the lock, the new file
+ * is opened again.
+ */
+inline Status OpenFileWithLock(
+    const std::string& path, int32_t oflags, bool writable, bool lock, bool wait, int32_t* fd) {
+  while (true) {
+    const int32_t new_fd = open(path.c_str(), lock ? oflags & ~O_TRUNC : oflags, FILEPERM);
+    if (new_fd < 0) {
+      return GetErrnoStatus("open", errno);
+    }
+    if (!lock) {
+      *fd = new_fd;
+      return Status(Status::SUCCESS);
+    }
+    struct flock flbuf;
+    std::memset(&flbuf, 0, sizeof(flbuf));
+    flbuf.l_type = writable ? F_WRLCK : F_RDLCK;
+    flbuf.l_whence = SEEK_SET;
+    flbuf.l_start = 0;
+    flbuf.l_len = 0;
+    flbuf.l_pid = 0;
+    if (fcntl(new_fd, wait ? F_SETLKW : F_SETLK, &flbuf) != 0) {
+      const Status status = GetErrnoStatus("fcntl-lock", errno);
+      close(new_fd);
+      return status;
+    }
+    struct stat fd_stat, path_stat;
+    if (fstat(new_fd, &fd_stat) != 0) {
+      const Status status = GetErrnoStatus("fstat", errno);
+      close(new_fd);
+      return status;
+    }
+    if (stat(path.c_str(), &path_stat) != 0) {
+      if (errno != ENOENT) {
+        const Status status = GetErrnoStatus("stat", errno);
+        close(new_fd);
+        return status;
+      }
+      close(new_fd);
+      continue;
+    }
+    if (fd_stat.st_dev != path_stat.st_dev || fd_stat.st_ino != path_stat.st_ino) {
+      close(new_fd);
+      continue;
+    }
+    if ((oflags & O_TRUNC) && S_ISREG(fd_stat.st_mode)) {
+      const Status status = TruncateFile(new_fd, 0);
+      if (status != Status::SUCCESS) {
+        close(new_fd);
+        return status;
+      }
+    }
+    *fd = new_fd;
+    return Status(Status::SUCCESS);
+  }
+}
+
 }  // namespace tkrzw
 
 #endif  // _TKRZW_SYS_UTIL_POSIX_H
-- 
2.43.0


From 17ae1f2b09cd28b2c01b94626ec4e907a45edcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 075/115] fix: keep the lock and the original file while
 exporting on-memory databases

---
 tkrzw_dbm_baby.cc        | 22 +++++++++-------------
 tkrzw_dbm_cache.cc       | 27 ++++++++++-----------------
 tkrzw_dbm_common_impl.cc | 28 ++++++++++++++++++++++++++++
 tkrzw_dbm_common_impl.h  | 15 +++++++++++++++
 tkrzw_dbm_std.cc         | 23 ++++++++++-------------
 tkrzw_dbm_tiny.cc        | 22 +++++++++-------------
 6 files changed, 81 insertions(+), 56 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index affe4fa..153d644 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1032,18 +1032,16 @@ Status BabyDBMImpl::ImportRecords() {
 }
 
 Status BabyDBMImpl::ExportRecords() {
-  Status status = file_->Close();
-  if (status != Status::SUCCESS) {
-    return status;
-  }
   const std::string export_path = path_ + ".tmp.export";
-  const int32_t export_options = File::OPEN_TRUNCATE | (open_options_ & File::OPEN_SYNC_HARD);
-  status = file_->Open(export_path, true, export_options);
+  const int32_t export_options =
+      (open_options_ | File::OPEN_TRUNCATE) & ~File::OPEN_NO_CREATE;
+  auto export_file = file_->MakeFile();
+  file_->CopyProperties(export_file.get());
+  Status status = export_file->Open(export_path, true, export_options);
   if (status != Status::SUCCESS) {
-    file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
     return status;
   }
-  FlatRecord flat_rec(file_.get());
+  FlatRecord flat_rec(export_file.get());
   std::map<std::string, std::string> meta;
   meta["class"] = "BabyDBM";
   meta["timestamp"] = SPrintF("%.6f", GetWallTime());
@@ -1062,11 +1060,9 @@ Status BabyDBMImpl::ExportRecords() {
     }
     leaf_node = leaf_node->next;
   }
-  status |= file_->Close();
-  status |= RenameFile(export_path, path_);
-  RemoveFile(export_path);
-  status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
-  return status;
+  return ReplaceFileByExport(
+      status, std::move(export_file), export_path, path_, open_options_ & File::OPEN_SYNC_HARD,
+      &file_);
 }
 
 void BabyDBMImpl::ProcessImpl(
diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 2c64150..f23017e 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -940,15 +940,13 @@ Status CacheDBMImpl::ImportRecords() {
 }
 
 Status CacheDBMImpl::ExportRecords() {
-  Status status = file_->Close();
-  if (status != Status::SUCCESS) {
-    return status;
-  }
   const std::string export_path = path_ + ".tmp.export";
-  const int32_t export_options = File::OPEN_TRUNCATE | (open_options_ & File::OPEN_SYNC_HARD);
-  status = file_->Open(export_path, true, export_options);
+  const int32_t export_options =
+      (open_options_ | File::OPEN_TRUNCATE) & ~File::OPEN_NO_CREATE;
+  auto export_file = file_->MakeFile();
+  file_->CopyProperties(export_file.get());
+  Status status = export_file->Open(export_path, true, export_options);
   if (status != Status::SUCCESS) {
-    file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
     return status;
   }
   int64_t num_records = 0;
@@ -959,7 +957,7 @@ Status CacheDBMImpl::ExportRecords() {
     eff_data_size += slot.GetEffectiveDataSize();
     mem_usage += slot.GetMemoryUsage();
   }
-  FlatRecord flat_rec(file_.get());
+  FlatRecord flat_rec(export_file.get());
   std::map<std::string, std::string> meta;
   meta["class"] = "CacheDBM";
   meta["timestamp"] = SPrintF("%.6f", GetWallTime());
@@ -970,16 +968,11 @@ Status CacheDBMImpl::ExportRecords() {
   meta["cap_mem_size"] = ToString(cap_mem_size_);
   status |= flat_rec.Write(SerializeStrMap(meta), FlatRecord::RECORD_METADATA);
   for (auto& slot : slots_) {
-    status = slot.ExportRecords(&flat_rec);
-    if (status != Status::SUCCESS) {
-      return status;
-    }
+    status |= slot.ExportRecords(&flat_rec);
   }
-  status |= file_->Close();
-  status |= RenameFile(export_path, path_);
-  RemoveFile(export_path);
-  status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
-  return status;
+  return ReplaceFileByExport(
+      status, std::move(export_file), export_path, path_, open_options_ & File::OPEN_SYNC_HARD,
+      &file_);
 }
 
 Status CacheDBMImpl::ReadNextBucketRecords(CacheDBMIteratorImpl* iter) {
diff --git a/tkrzw_dbm_common_impl.cc b/tkrzw_dbm_common_impl.cc
index 11d839a..676ede6 100644
--- a/tkrzw_dbm_common_impl.cc
+++ b/tkrzw_dbm_common_impl.cc
@@ -806,6 +806,34 @@ Status SearchTextFileModal(
   return status;
 }
 
+Status ReplaceFileByExport(
+    const Status& write_status, std::unique_ptr<File> export_file, const std::string& export_path,
+    const std::string& path, bool sync_hard, std::unique_ptr<File>* file) {
+  Status status = write_status;
+  if (status == Status::SUCCESS) {
+    status |= export_file->Synchronize(sync_hard);
+  }
+  if (status == Status::SUCCESS) {
+    // The new file is locked already so other processes cannot intervene.
+    if (!IS_POSIX) {
+      (*file)->Close();
+    }
+    status |= export_file->Rename(path);
+  }
+  if (status != Status::SUCCESS) {
+    export_file->Close();
+    RemoveFile(export_path);
+    return status;
+  }
+  if (IS_POSIX) {
+    // The old file must not affect the new file at the same path.
+    status |= (*file)->DisablePathOperations();
+    status |= (*file)->Close();
+  }
+  *file = std::move(export_file);
+  return status;
+}
+
 }  // namespace tkrzw
 
 // END OF FILE
diff --git a/tkrzw_dbm_common_impl.h b/tkrzw_dbm_common_impl.h
index e6bd8a3..bd0f9c0 100644
--- a/tkrzw_dbm_common_impl.h
+++ b/tkrzw_dbm_common_impl.h
@@ -14,6 +14,7 @@
 #ifndef _TKRZW_DBM_COMMON_IMPL_H
 #define _TKRZW_DBM_COMMON_IMPL_H
 
+#include <memory>
 #include <string>
 #include <string_view>
 
@@ -321,6 +322,20 @@ Status SearchTextFileModal(
     File* file, std::string_view mode, std::string_view pattern,
     std::vector<std::string>* matched, size_t capacity = 0);
 
+/**
+ * Completes an exported file and replaces the file of a database with it.
+ * @param write_status The result status of writing the exported file.
+ * @param export_file The exported file, which is open.  It is closed and removed on failure.
+ * @param export_path The path of the exported file.
+ * @param path The path of the file of the database.
+ * @param sync_hard True to do physical synchronization before the replacement.
+ * @param file The file of the database.  It is replaced only on success.
+ * @return The result status.
+ */
+Status ReplaceFileByExport(
+    const Status& write_status, std::unique_ptr<File> export_file, const std::string& export_path,
+    const std::string& path, bool sync_hard, std::unique_ptr<File>* file);
+
 }  // namespace tkrzw
 
 #endif  // _TKRZW_DBM_COMMON_IMPL_H
diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index 3a2ecae..5df3464 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -14,6 +14,7 @@
 #include "tkrzw_sys_config.h"
 
 #include "tkrzw_dbm.h"
+#include "tkrzw_dbm_common_impl.h"
 #include "tkrzw_dbm_std.h"
 #include "tkrzw_file.h"
 #include "tkrzw_file_mmap.h"
@@ -572,18 +573,16 @@ Status StdDBMImpl<STRMAP>::ImportRecords() {
 
 template <class STRMAP>
 Status StdDBMImpl<STRMAP>::ExportRecords() {
-  Status status = file_->Close();
-  if (status != Status::SUCCESS) {
-    return status;
-  }
   const std::string export_path = path_ + ".tmp.export";
-  const int32_t export_options = File::OPEN_TRUNCATE | (open_options_ & File::OPEN_SYNC_HARD);
-  status = file_->Open(export_path, true, export_options);
+  const int32_t export_options =
+      (open_options_ | File::OPEN_TRUNCATE) & ~File::OPEN_NO_CREATE;
+  auto export_file = file_->MakeFile();
+  file_->CopyProperties(export_file.get());
+  Status status = export_file->Open(export_path, true, export_options);
   if (status != Status::SUCCESS) {
-    file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
     return status;
   }
-  FlatRecord rec(file_.get());
+  FlatRecord rec(export_file.get());
   std::map<std::string, std::string> meta;
   if (typeid(map_) == typeid(StringHashMap)) {
     meta["class"] = "StdHashDBM";
@@ -602,11 +601,9 @@ Status StdDBMImpl<STRMAP>::ExportRecords() {
     }
     ++it;
   }
-  status |= file_->Close();
-  status |= RenameFile(export_path, path_);
-  RemoveFile(export_path);
-  status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
-  return status;
+  return ReplaceFileByExport(
+      status, std::move(export_file), export_path, path_, open_options_ & File::OPEN_SYNC_HARD,
+      &file_);
 }
 
 template <class STRMAP>
diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index 16af9c9..32c4430 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -589,18 +589,16 @@ Status TinyDBMImpl::ImportRecords() {
 }
 
 Status TinyDBMImpl::ExportRecords() {
-  Status status = file_->Close();
-  if (status != Status::SUCCESS) {
-    return status;
-  }
   const std::string export_path = path_ + ".tmp.export";
-  const int32_t export_options = File::OPEN_TRUNCATE | (open_options_ & File::OPEN_SYNC_HARD);
-  status = file_->Open(export_path, true, export_options);
+  const int32_t export_options =
+      (open_options_ | File::OPEN_TRUNCATE) & ~File::OPEN_NO_CREATE;
+  auto export_file = file_->MakeFile();
+  file_->CopyProperties(export_file.get());
+  Status status = export_file->Open(export_path, true, export_options);
   if (status != Status::SUCCESS) {
-    file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
     return status;
   }
-  FlatRecord flat_rec(file_.get());
+  FlatRecord flat_rec(export_file.get());
   std::map<std::string, std::string> meta;
   meta["class"] = "TinyDBM";
   meta["timestamp"] = SPrintF("%.6f", GetWallTime());
@@ -620,11 +618,9 @@ Status TinyDBMImpl::ExportRecords() {
       ptr = rec.child;
     }
   }
-  status |= file_->Close();
-  status |= RenameFile(export_path, path_);
-  RemoveFile(export_path);
-  status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
-  return status;
+  return ReplaceFileByExport(
+      status, std::move(export_file), export_path, path_, open_options_ & File::OPEN_SYNC_HARD,
+      &file_);
 }
 
 void TinyDBMImpl::ProcessImpl(
-- 
2.43.0


From 98f150814b2893072be3e42841af0c084b70d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 076/115] fix: check the state of ShardDBM in all operations

---
 tkrzw_dbm_shard.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index b59ff0f..d164fc0 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -104,6 +104,7 @@ Status ShardDBM::OpenAdvanced(
       for (int32_t j = i - 1; j >= 0; j--) {
         dbms_[j]->Close();
       }
+      dbms_.clear();
       return status;
     }
   }
@@ -118,6 +119,7 @@ Status ShardDBM::OpenAdvanced(
     for (int32_t i = dbms_.size() - 1; i >= 0; i--) {
       dbms_[i]->Close();
     }
+    dbms_.clear();
     return status;
   }
   open_ = true;
@@ -197,6 +199,9 @@ Status ShardDBM::Append(std::string_view key, std::string_view value, std::strin
 
 Status ShardDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
   assert(proc != nullptr);
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   std::unique_ptr<ShardDBM::Iterator> iter(new Iterator(&dbms_));
   while (true) {
     Status status = iter->First();
@@ -260,6 +265,9 @@ Status ShardDBM::ProcessMulti(
 Status ShardDBM::CompareExchangeMulti(
     const std::vector<std::pair<std::string_view, std::string_view>>& expected,
     const std::vector<std::pair<std::string_view, std::string_view>>& desired) {
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   typedef std::pair<std::string_view, std::string_view> Condition;
   typedef std::pair<std::vector<Condition>, std::vector<Condition>> ConditionListPair;
   std::map<int32_t, ConditionListPair> shard_conditions;
@@ -599,6 +607,9 @@ bool ShardDBM::IsOrdered() const {
 }
 
 std::unique_ptr<DBM::Iterator> ShardDBM::MakeIterator() {
+  if (!open_) {
+    return PolyDBM().MakeIterator();
+  }
   std::unique_ptr<ShardDBM::Iterator> iter(new Iterator(&dbms_));
   return iter;
 }
-- 
2.43.0


From 53abe4c0e77a1ffdf96b082be12719b236eee07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 077/115] fix: check the state in ProcessMulti of PolyDBM

---
 tkrzw_dbm_poly.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index 1219aaf..d0acad4 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -634,6 +634,9 @@ Status PolyDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
 Status PolyDBM::ProcessMulti(
     const std::vector<std::pair<std::string_view, RecordProcessor*>>& key_proc_pairs,
     bool writable) {
+  if (dbm_ == nullptr) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   return dbm_->ProcessMulti(key_proc_pairs, writable);
 }
 
-- 
2.43.0


From f78a0aa4afc382870cf0803a7810cec3ce29c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 078/115] fix: reopen the original file if renaming fails

---
 tkrzw_file_std.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_file_std.cc b/tkrzw_file_std.cc
index f95d882..d6956d5 100644
--- a/tkrzw_file_std.cc
+++ b/tkrzw_file_std.cc
@@ -244,7 +244,7 @@ Status StdFileImpl::Rename(const std::string& new_path) {
   }
   status = RenameFile(old_path, new_path);
   if (status != Status::SUCCESS) {
-    OpenImpl(new_path, writable, options);
+    OpenImpl(old_path, writable, options);
     return status;
   }
   return OpenImpl(new_path, writable, options);
-- 
2.43.0


From 0ab0b4b519e083866abf0927f467e5a5d452386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 079/115] fix: refuse updates by iterators of databases which
 are not writable

---
 tkrzw_dbm_hash.cc | 8 ++++++++
 tkrzw_dbm_tree.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 13f35d1..4abbf15 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -2352,6 +2352,14 @@ Status HashDBMIteratorImpl::Next() {
 
 Status HashDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+  if (writable) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   const Status status = ReadKeys();
   if (status != Status::SUCCESS) {
     return status;
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index a20b09e..37ed91c 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2300,6 +2300,14 @@ Status TreeDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
     }
   }
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+  if (writable) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   if (key_ptr_ == nullptr) {
     return Status(Status::NOT_FOUND_ERROR);
   }
-- 
2.43.0


From 9b5fda2a376dbb5f2c550325c21b22c8a14dea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 080/115] fix: refuse updates by iterators of skip databases
 which are not writable

---
 tkrzw_dbm_skip.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index a01f4ed..e3f6b99 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1692,6 +1692,12 @@ Status SkipDBMIteratorImpl::Previous() {
 Status SkipDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   if (writable) {
     std::lock_guard<SpinSharedMutex> lock(dbm_->mutex_);
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
     if (record_offset_ < 0 || record_offset_ >= dbm_->file_->GetSizeSimple()) {
       return Status(Status::NOT_FOUND_ERROR);
     }
-- 
2.43.0


From 23898ff192058a9eb5bd04516cb052bfdc2d1be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:35 +0000
Subject: [PATCH 081/115] fix: keep the closure flag while clearing skip
 databases

---
 tkrzw_dbm_skip.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index e3f6b99..f4a689c 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -704,7 +704,6 @@ Status SkipDBMImpl::Clear() {
   file_size_ = file_->GetSizeSimple();
   timestamp_ = GetWallTime() * 1000000;
   status |= SaveMetadata(file_.get(), false);
-  status |= LoadMetadata();
   status |= PrepareStorage();
   cache_ = std::make_unique<SkipRecordCache>(step_unit_, max_cached_records_, num_records_);
   return status;
-- 
2.43.0


From b7e79633513c050dd0facba70878788f73eaed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:41 +0000
Subject: [PATCH 082/115] fix: keep the file objects of on-memory databases
 over exporting

---
 tkrzw_dbm_baby.cc        |  5 +++--
 tkrzw_dbm_cache.cc       |  5 +++--
 tkrzw_dbm_common_impl.cc | 33 +++++++++++++++++++++++----------
 tkrzw_dbm_common_impl.h  |  8 +++++---
 tkrzw_dbm_std.cc         |  5 +++--
 tkrzw_dbm_tiny.cc        |  5 +++--
 6 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 153d644..3affd8c 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -168,6 +168,7 @@ class BabyDBMImpl final {
 
   IteratorList iterators_;
   std::unique_ptr<File> file_;
+  std::unique_ptr<File> lock_file_;
   bool open_;
   bool writable_;
   int32_t open_options_;
@@ -403,6 +404,7 @@ Status BabyDBMImpl::Close() {
   if (writable_) {
     status |= ExportRecords();
   }
+  lock_file_.reset();
   status |= file_->Close();
   FreeNodes();
   InitializeNodes();
@@ -1061,8 +1063,7 @@ Status BabyDBMImpl::ExportRecords() {
     leaf_node = leaf_node->next;
   }
   return ReplaceFileByExport(
-      status, std::move(export_file), export_path, path_, open_options_ & File::OPEN_SYNC_HARD,
-      &file_);
+      status, std::move(export_file), export_path, path_, open_options_, file_.get(), &lock_file_);
 }
 
 void BabyDBMImpl::ProcessImpl(
diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index f23017e..df672ea 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -127,6 +127,7 @@ class CacheDBMImpl final {
 
   IteratorList iterators_;
   std::unique_ptr<File> file_;
+  std::unique_ptr<File> lock_file_;
   bool open_;
   bool writable_;
   int32_t open_options_;
@@ -642,6 +643,7 @@ Status CacheDBMImpl::Close() {
   if (writable_) {
     status |= ExportRecords();
   }
+  lock_file_.reset();
   status |= file_->Close();
   CleanUpAllSlots();
   CancelIterators();
@@ -971,8 +973,7 @@ Status CacheDBMImpl::ExportRecords() {
     status |= slot.ExportRecords(&flat_rec);
   }
   return ReplaceFileByExport(
-      status, std::move(export_file), export_path, path_, open_options_ & File::OPEN_SYNC_HARD,
-      &file_);
+      status, std::move(export_file), export_path, path_, open_options_, file_.get(), &lock_file_);
 }
 
 Status CacheDBMImpl::ReadNextBucketRecords(CacheDBMIteratorImpl* iter) {
diff --git a/tkrzw_dbm_common_impl.cc b/tkrzw_dbm_common_impl.cc
index 676ede6..0c025d3 100644
--- a/tkrzw_dbm_common_impl.cc
+++ b/tkrzw_dbm_common_impl.cc
@@ -808,16 +808,21 @@ Status SearchTextFileModal(
 
 Status ReplaceFileByExport(
     const Status& write_status, std::unique_ptr<File> export_file, const std::string& export_path,
-    const std::string& path, bool sync_hard, std::unique_ptr<File>* file) {
+    const std::string& path, int32_t open_options, File* file, std::unique_ptr<File>* lock_file) {
   Status status = write_status;
   if (status == Status::SUCCESS) {
-    status |= export_file->Synchronize(sync_hard);
+    status |= export_file->Synchronize(open_options & File::OPEN_SYNC_HARD);
+  }
+  if (!IS_POSIX && status == Status::SUCCESS) {
+    status |= export_file->Close();
+    status |= file->Close();
+    status |= RenameFile(export_path, path);
+    RemoveFile(export_path);
+    status |= file->Open(path, true, open_options & ~File::OPEN_TRUNCATE);
+    return status;
   }
   if (status == Status::SUCCESS) {
     // The new file is locked already so other processes cannot intervene.
-    if (!IS_POSIX) {
-      (*file)->Close();
-    }
     status |= export_file->Rename(path);
   }
   if (status != Status::SUCCESS) {
@@ -825,12 +830,20 @@ Status ReplaceFileByExport(
     RemoveFile(export_path);
     return status;
   }
-  if (IS_POSIX) {
-    // The old file must not affect the new file at the same path.
-    status |= (*file)->DisablePathOperations();
-    status |= (*file)->Close();
+  // The old file must not affect the new file at the same path.
+  if (*lock_file != nullptr) {
+    (*lock_file)->DisablePathOperations();
+    (*lock_file)->Close();
+    lock_file->reset();
+  }
+  file->DisablePathOperations();
+  file->Close();
+  if (open_options & File::OPEN_NO_LOCK) {
+    status |= export_file->Close();
+  } else {
+    *lock_file = std::move(export_file);
   }
-  *file = std::move(export_file);
+  status |= file->Open(path, true, open_options & ~File::OPEN_TRUNCATE);
   return status;
 }
 
diff --git a/tkrzw_dbm_common_impl.h b/tkrzw_dbm_common_impl.h
index bd0f9c0..a0bab31 100644
--- a/tkrzw_dbm_common_impl.h
+++ b/tkrzw_dbm_common_impl.h
@@ -328,13 +328,15 @@ Status SearchTextFileModal(
  * @param export_file The exported file, which is open.  It is closed and removed on failure.
  * @param export_path The path of the exported file.
  * @param path The path of the file of the database.
- * @param sync_hard True to do physical synchronization before the replacement.
- * @param file The file of the database.  It is replaced only on success.
+ * @param open_options The options given when the database was opened.
+ * @param file The file of the database.  It is opened again only if the replacement is done.
+ * @param lock_file The pointer to the object to hold the lock of the new file.  It must be closed
+ * with the file of the database, because closing any descriptor of a file releases the locks.
  * @return The result status.
  */
 Status ReplaceFileByExport(
     const Status& write_status, std::unique_ptr<File> export_file, const std::string& export_path,
-    const std::string& path, bool sync_hard, std::unique_ptr<File>* file);
+    const std::string& path, int32_t open_options, File* file, std::unique_ptr<File>* lock_file);
 
 }  // namespace tkrzw
 
diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index 5df3464..7ad12bf 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -69,6 +69,7 @@ class StdDBMImpl {
   STRMAP map_;
   IteratorList iterators_;
   std::unique_ptr<File> file_;
+  std::unique_ptr<File> lock_file_;
   bool open_;
   bool writable_;
   int32_t open_options_;
@@ -158,6 +159,7 @@ Status StdDBMImpl<STRMAP>::Close() {
   if (writable_) {
     status |= ExportRecords();
   }
+  lock_file_.reset();
   status |= file_->Close();
   CancelIterators();
   map_.clear();
@@ -602,8 +604,7 @@ Status StdDBMImpl<STRMAP>::ExportRecords() {
     ++it;
   }
   return ReplaceFileByExport(
-      status, std::move(export_file), export_path, path_, open_options_ & File::OPEN_SYNC_HARD,
-      &file_);
+      status, std::move(export_file), export_path, path_, open_options_, file_.get(), &lock_file_);
 }
 
 template <class STRMAP>
diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index 32c4430..af07b7d 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -88,6 +88,7 @@ class TinyDBMImpl final {
 
   IteratorList iterators_;
   std::unique_ptr<File> file_;
+  std::unique_ptr<File> lock_file_;
   bool open_;
   bool writable_;
   int32_t open_options_;
@@ -262,6 +263,7 @@ Status TinyDBMImpl::Close() {
   if (writable_) {
     status |= ExportRecords();
   }
+  lock_file_.reset();
   status |= file_->Close();
   ReleaseAllRecords();
   CancelIterators();
@@ -619,8 +621,7 @@ Status TinyDBMImpl::ExportRecords() {
     }
   }
   return ReplaceFileByExport(
-      status, std::move(export_file), export_path, path_, open_options_ & File::OPEN_SYNC_HARD,
-      &file_);
+      status, std::move(export_file), export_path, path_, open_options_, file_.get(), &lock_file_);
 }
 
 void TinyDBMImpl::ProcessImpl(
-- 
2.43.0


From 49a109ad751b8125a827bffb940608fe91da6340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:20 +0000
Subject: [PATCH 083/115] fix: check the sizes of flat records before reading
 them

---
 tkrzw_file_util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index 76b0a40..50ca1b4 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1237,7 +1237,7 @@ Status FlatRecord::Read(int64_t offset) {
     return Status(Status::BROKEN_DATA_ERROR, "invalid record size");
   }
   data_size_ = num;
-  if (static_cast<int64_t>(data_size_) > max_read_size) {
+  if (data_size_ > static_cast<uint64_t>(max_read_size)) {
     return Status(Status::BROKEN_DATA_ERROR, "too large record size");
   }
   rp += step;
@@ -1416,6 +1416,9 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
   }
   data_size_ = 0;
   index_ = 0;
+  if (value_size > static_cast<uint64_t>(file_size - offset_)) {
+    return Status(Status::BROKEN_DATA_ERROR, "too large record size");
+  }
   delete[] buffer_;
   buffer_size_ += value_size - record_size;
   buffer_ = new char[buffer_size_];
-- 
2.43.0


From 1a11c5dc6cccc7e58c3c6f8951faf74cc500d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:20 +0000
Subject: [PATCH 084/115] fix: check the sizes of skip records before narrowing
 them

---
 tkrzw_dbm_skip_impl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_skip_impl.cc b/tkrzw_dbm_skip_impl.cc
index e06b8d8..4cfaffe 100644
--- a/tkrzw_dbm_skip_impl.cc
+++ b/tkrzw_dbm_skip_impl.cc
@@ -110,20 +110,20 @@ Status SkipRecord::ReadMetadataKey(int64_t offset, int64_t index) {
   if (step < 1) {
     return Status(Status::BROKEN_DATA_ERROR, "invalid key size");
   }
-  key_size_ = num;
-  if (key_size_ > max_read_size) {
+  if (num > static_cast<uint64_t>(max_read_size)) {
     return Status(Status::BROKEN_DATA_ERROR, "too large key size");
   }
+  key_size_ = num;
   rp += step;
   record_size -= step;
   step = ReadVarNum(rp, record_size, &num);
   if (step < 1) {
     return Status(Status::BROKEN_DATA_ERROR, "invalid value size");
   }
-  value_size_ = num;
-  if (value_size_ > max_read_size) {
+  if (num > static_cast<uint64_t>(max_read_size)) {
     return Status(Status::BROKEN_DATA_ERROR, "too large value size");
   }
+  value_size_ = num;
   rp += step;
   record_size -= step;
   const int32_t header_size = sizeof(uint8_t) + offset_width_ * level_ +
-- 
2.43.0


From acc89ae2a5c3c56c437658b9a25df5f9f37a51d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:20 +0000
Subject: [PATCH 085/115] fix: refuse invalid metadata when restoring skip
 databases

---
 tkrzw_dbm_skip.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index f4a689c..15cd263 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -2168,6 +2168,11 @@ Status SkipDBM::RestoreDatabase(
     step_unit = old_step_unit;
     max_level = old_max_level;
   }
+  if (old_offset_width < MIN_OFFSET_WIDTH || old_offset_width > MAX_OFFSET_WIDTH ||
+      old_step_unit < MIN_STEP_UNIT || old_step_unit > MAX_STEP_UNIT ||
+      old_max_level < MIN_MAX_LEVEL || old_max_level > MAX_MAX_LEVEL) {
+    return Status(Status::BROKEN_DATA_ERROR, "invalid metadata");
+  }
   std::unique_ptr<File> new_file;
   if (act_old_file_size <= UINT32MAX) {
     new_file = std::make_unique<MemoryMapParallelFile>();
-- 
2.43.0


From 41648d8a80660c9e7ba9aef654f730bf49031845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:45 +0000
Subject: [PATCH 086/115] fix: extend files before the memory mapping when
 truncating them to a larger size

---
 tkrzw_file_mmap.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index 0f71155..5e50ff7 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -236,6 +236,13 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   int64_t new_map_size =
       std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
   new_map_size = AlignNumber(new_map_size, PAGE_SIZE);
+  const bool growing = new_map_size > map_size_.load();
+  if (growing) {
+    const Status status = TruncateFile(fd_, new_map_size);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+  }
   void* new_map = tkrzw_mremap(map_, map_size_.load(), new_map_size, fd_);
   if (new_map == MAP_FAILED) {
     const Status status = GetErrnoStatus("mremap", errno);
@@ -247,9 +254,11 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   AdviseMemoryRandomAccessPattern(new_map, new_map_size);
   map_ = static_cast<char*>(new_map);
   map_size_.store(new_map_size);
-  const Status status = TruncateFile(fd_, new_map_size);
-  if (status != Status::SUCCESS) {
-    return status;
+  if (!growing) {
+    const Status status = TruncateFile(fd_, new_map_size);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
   }
   const int64_t stale_end = std::min(file_size_.load(), new_map_size);
   if (size < stale_end) {
@@ -795,6 +804,13 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   int64_t new_map_size =
       std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
   new_map_size = AlignNumber(new_map_size, PAGE_SIZE);
+  const bool growing = new_map_size > map_size_;
+  if (growing) {
+    const Status status = TruncateFile(fd_, new_map_size);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+  }
   void* new_map = tkrzw_mremap(map_, map_size_, new_map_size, fd_);
   if (new_map == MAP_FAILED) {
     const Status status = GetErrnoStatus("mremap", errno);
@@ -805,9 +821,11 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   }
   map_ = static_cast<char*>(new_map);
   map_size_ = new_map_size;
-  const Status status = TruncateFile(fd_, new_map_size);
-  if (status != Status::SUCCESS) {
-    return status;
+  if (!growing) {
+    const Status status = TruncateFile(fd_, new_map_size);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
   }
   const int64_t stale_end = std::min(file_size_, new_map_size);
   if (size < stale_end) {
-- 
2.43.0


From 34d02ad744407054a634d7fb9ae4b884da014d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:45 +0000
Subject: [PATCH 087/115] fix: stop initializing hash databases if the file
 cannot be extended

---
 tkrzw_dbm_hash.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 4abbf15..c6bfd86 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1393,6 +1393,9 @@ Status HashDBMImpl::InitializeBuckets() {
   int64_t offset = METADATA_SIZE;
   int64_t size = record_base_ - offset;
   Status status = file_->Truncate(record_base_);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   char buf[8192];
   std::memset(buf, 0, sizeof(buf));
   while (size > 0) {
-- 
2.43.0


From eec2fa366c5019a26fec528a47a842883a2a9218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:45 +0000
Subject: [PATCH 088/115] fix: ignore backward skip offsets of broken skip
 databases

---
 tkrzw_dbm_skip_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_skip_impl.cc b/tkrzw_dbm_skip_impl.cc
index 4cfaffe..685e630 100644
--- a/tkrzw_dbm_skip_impl.cc
+++ b/tkrzw_dbm_skip_impl.cc
@@ -291,7 +291,7 @@ Status SkipRecord::Search(
     bool skipped = false;
     for (int32_t level = level_; level > 0; level--) {
       const int64_t next_offset = skip_offsets_[level - 1];
-      if (next_offset <= 0 || next_offset >= end_offset) {
+      if (next_offset <= offset || next_offset >= end_offset) {
         continue;
       }
       int64_t next_index_diff = 1;
@@ -361,7 +361,7 @@ Status SkipRecord::SearchByIndex(int64_t record_base, SkipRecordCache* cache, in
     bool skipped = false;
     for (int32_t level = level_; level > 0; level--) {
       const int64_t next_offset = skip_offsets_[level - 1];
-      if (next_offset <= 0 || next_offset >= end_offset) {
+      if (next_offset <= offset || next_offset >= end_offset) {
         continue;
       }
       int64_t next_index_diff = 1;
-- 
2.43.0


From e93cef23d83aa31f1125d7b764b6ce61434219ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:00 +0000
Subject: [PATCH 089/115] fix: do not buffer the buckets which are missing in
 broken hash databases

---
 tkrzw_dbm_hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index c6bfd86..f54794c 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1380,7 +1380,7 @@ Status HashDBMImpl::CheckFileBeforeOpen(File* file, const std::string& path, boo
 
 Status HashDBMImpl::TuneFileAfterOpen() {
   Status status(Status::SUCCESS);
-  if (cache_buckets_) {
+  if (cache_buckets_ && record_base_ <= file_->GetSizeSimple()) {
     auto* pos_file = dynamic_cast<PositionalFile*>(file_.get());
     if (pos_file != nullptr) {
       status |= pos_file->SetHeadBuffer(record_base_);
-- 
2.43.0


From 4132a8a60e1708525effc4400f4effd03c3d09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:06 +0000
Subject: [PATCH 090/115] fix: check the sizes in tree nodes before narrowing
 them

---
 tkrzw_dbm_tree.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 37ed91c..bb349bd 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -306,7 +306,7 @@ Status DeserializeLeafNode(
     }
     rp += step;
     record_size -= step;
-    if (record_size < static_cast<int32_t>(key_size)) {
+    if (static_cast<uint64_t>(record_size) < key_size) {
       return Status(Status::BROKEN_DATA_ERROR, "too short record key");
     }
     const std::string_view rec_key(rp, key_size);
@@ -319,7 +319,7 @@ Status DeserializeLeafNode(
     }
     rp += step;
     record_size -= step;
-    if (record_size < static_cast<int32_t>(value_size)) {
+    if (static_cast<uint64_t>(record_size) < value_size) {
       return Status(Status::BROKEN_DATA_ERROR, "too short record value");
     }
     const std::string_view rec_value(rp, value_size);
@@ -348,7 +348,7 @@ Status DeserializeInnerNode(
     }
     rp += step;
     record_size -= step;
-    if (record_size < static_cast<int32_t>(key_size)) {
+    if (static_cast<uint64_t>(record_size) < key_size) {
       return Status(Status::BROKEN_DATA_ERROR, "too short link key");
     }
     const std::string_view link_key(rp, key_size);
-- 
2.43.0


From 77621cc168f046d6c8cfbdc9e2507d86bf101ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:26 +0000
Subject: [PATCH 091/115] fix: check the message size against the file before
 reading messages

---
 tkrzw_message_queue.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 78f0a22..f54074e 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -758,6 +758,9 @@ Status MessageQueue::ReadNextMessage(
   }
   *file_offset += sizeof(header);
   if (*timestamp >= min_timestamp) {
+    if (static_cast<int64_t>(data_size) >= file->GetSizeSimple() - *file_offset) {
+      return Status(Status::INFEASIBLE_ERROR, "excessive size");
+    }
     message->resize(data_size + 1);
     status = file->Read(*file_offset, const_cast<char*>(message->data()), data_size + 1);
     if (status != Status::SUCCESS) {
-- 
2.43.0


From e84560b6431ef84513831ab266b7009200365b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:25 +0000
Subject: [PATCH 092/115] fix: report errors of synchronizing StdHashDBM and
 StdTreeDBM

---
 tkrzw_dbm_std.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index 7ad12bf..5beae5e 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -450,7 +450,7 @@ Status StdDBMImpl<STRMAP>::Synchronize(bool hard, DBM::FileProcessor* proc) {
       proc->Process(path_);
     }
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 template <class STRMAP>
-- 
2.43.0


From 95d078852459ba89760df2df781e900bd94074c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 093/115] fix: keep the file of a skip database when replacing
 it fails

---
 tkrzw_dbm_skip.cc | 49 +++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 15cd263..ecaae5f 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -815,12 +815,16 @@ Status SkipDBMImpl::Rebuild(
   if (sync_hard) {
     status |= rebuild_file->Synchronize(true);
   }
-  status |= file_->DisablePathOperations();
-  if (IS_POSIX) {
+  if (status == Status::SUCCESS && IS_POSIX) {
     status |= rebuild_file->Rename(path_);
-    status |= file_->Close();
-  } else {
-    status |= file_->Close();
+  }
+  if (status != Status::SUCCESS) {
+    CleanUp();
+    return status;
+  }
+  status |= file_->DisablePathOperations();
+  status |= file_->Close();
+  if (!IS_POSIX) {
     status |= rebuild_file->Rename(path_);
   }
   if (sync_hard) {
@@ -1254,6 +1258,9 @@ Status SkipDBMImpl::PrepareStorage() {
 Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   const std::string sorted_path = path_ + SORTED_FILE_SUFFIX;
   const std::string merged_path = path_ + MERGED_FILE_SUFFIX;
+  const int64_t old_num_records = num_records_;
+  const int64_t old_eff_data_size = eff_data_size_;
+  const int64_t old_file_size = file_size_;
   Status status(Status::SUCCESS);
   if (reducer == nullptr && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
@@ -1266,20 +1273,20 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
     status |= sorted_file_->Synchronize(false);
+    if (status == Status::SUCCESS && IS_POSIX) {
+      status |= sorted_file_->Rename(path_);
+    }
     if (status != Status::SUCCESS) {
+      num_records_ = old_num_records;
+      eff_data_size_ = old_eff_data_size;
+      file_size_ = old_file_size;
       return status;
     }
     file_->DisablePathOperations();
-    if (IS_POSIX) {
-      status |= sorted_file_->Rename(path_);
-      status |= file_->Close();
-    } else {
-      status |= file_->Close();
+    status |= file_->Close();
+    if (!IS_POSIX) {
       status |= sorted_file_->Rename(path_);
     }
-    if (status != Status::SUCCESS) {
-      return status;
-    }
     file_ = std::move(sorted_file_);
   } else {
     if (file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
@@ -1370,20 +1377,20 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(merged_file.get(), true);
     status |= merged_file->Synchronize(false);
+    if (status == Status::SUCCESS && IS_POSIX) {
+      status |= merged_file->Rename(path_);
+    }
     if (status != Status::SUCCESS) {
+      num_records_ = old_num_records;
+      eff_data_size_ = old_eff_data_size;
+      file_size_ = old_file_size;
       return status;
     }
     file_->DisablePathOperations();
-    if (IS_POSIX) {
-      status |= merged_file->Rename(path_);
-      status |= file_->Close();
-    } else {
-      status |= file_->Close();
+    status |= file_->Close();
+    if (!IS_POSIX) {
       status |= merged_file->Rename(path_);
     }
-    if (status != Status::SUCCESS) {
-      return status;
-    }
     file_ = std::move(merged_file);
     if (sorted_file_ != nullptr) {
       status |= sorted_file_->Close();
-- 
2.43.0


From f565704494575d4538de6e335fdae59d4215529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 094/115] fix: do not extend positional files by appending
 which failed

---
 tkrzw_file_pos.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index dba1254..b981b31 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -332,7 +332,13 @@ Status PositionalParallelFileImpl::Append(const void* buf, size_t size, int64_t*
     }
     return Status(Status::SUCCESS);
   }
-  return WriteImpl(position, static_cast<const char*>(buf), size);
+  const Status status = WriteImpl(position, static_cast<const char*>(buf), size);
+  if (status != Status::SUCCESS) {
+    // Retracts the region unless another thread has already appended data after it.
+    int64_t end_position = position + size;
+    file_size_.compare_exchange_strong(end_position, position);
+  }
+  return status;
 }
 
 Status PositionalParallelFileImpl::Truncate(int64_t size) {
@@ -1020,7 +1026,11 @@ Status PositionalAtomicFileImpl::Append(const void* buf, size_t size, int64_t* o
     }
     return Status(Status::SUCCESS);
   }
-  return WriteImpl(position, static_cast<const char*>(buf), size);
+  const Status write_status = WriteImpl(position, static_cast<const char*>(buf), size);
+  if (write_status != Status::SUCCESS) {
+    file_size_ = position;
+  }
+  return write_status;
 }
 
 Status PositionalAtomicFileImpl::Truncate(int64_t size) {
-- 
2.43.0


From 1c330fab946d52b5394d88842615346f001ed7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:02 +0000
Subject: [PATCH 095/115] fix: do not remove the source when restoring a tree
 database fails

---
 tkrzw_dbm_tree.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index bb349bd..9bba44d 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2839,7 +2839,9 @@ Status TreeDBM::RestoreDatabase(
   HashDBM tmp_dbm;
   Status status = tmp_dbm.OpenAdvanced(tmp_file_path, false, File::OPEN_DEFAULT, hash_params);
   if (status != Status::SUCCESS) {
-    RemoveFile(tmp_file_path);
+    if (tmp_file_path != old_file_path) {
+      RemoveFile(tmp_file_path);
+    }
     return status;
   }
   const auto& meta = tmp_dbm.Inspect();
@@ -2928,7 +2930,9 @@ Status TreeDBM::RestoreDatabase(
   status = new_dbm.OpenAdvanced(new_file_path, true, File::OPEN_TRUNCATE, params);
   if (status != Status::SUCCESS) {
     tmp_dbm.Close();
-    RemoveFile(tmp_file_path);
+    if (tmp_file_path != old_file_path) {
+      RemoveFile(tmp_file_path);
+    }
     RemoveFile(new_file_path);
     return status;
   }
-- 
2.43.0


From f1e1e429286b297ea876399451512ecc8c9f99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:02 +0000
Subject: [PATCH 096/115] fix: report errors of updating when importing records
 of HashDBM

---
 tkrzw_dbm_hash.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index f54794c..3d894b5 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1930,24 +1930,25 @@ Status HashDBMImpl::ImportFromFileForwardImpl(
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       Status set_status(Status::SUCCESS);
       DBM::RecordProcessorSet setter(&set_status, value, true, nullptr);
-      *status_ = impl_->Process(key, &setter, false, true);
+      *status_ |= impl_->Process(key, &setter, false, true);
       *status_ |= set_status;
       return NOOP;
     }
     std::string_view ProcessEmpty(std::string_view key) override {
       Status remove_status(Status::SUCCESS);
       DBM::RecordProcessorRemove remover(&remove_status, nullptr);
-      *status_ = impl_->Process(key, &remover, false, true);
-      *status_ |= remove_status;
+      *status_ |= impl_->Process(key, &remover, false, true);
       return NOOP;
     }
    private:
     HashDBMImpl* impl_;
     Status* status_;
   } importer(this, &import_status);
-  return HashRecord::ReplayOperations(
+  status = HashRecord::ReplayOperations(
       file, &importer, record_base, crc_width, compressor.get(),
       offset_width, align_pow, min_read_size_, skip_broken_records, end_offset);
+  status |= import_status;
+  return status;
 }
 
 Status HashDBMImpl::ImportFromFileBackwardImpl(
-- 
2.43.0


From c5ebf52dd477f98e585a0cfa9759d9484f311c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:02 +0000
Subject: [PATCH 097/115] fix: report errors of updating when restoring a tree
 database

---
 tkrzw_dbm_tree.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 9bba44d..0f4d1d2 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2936,11 +2936,14 @@ Status TreeDBM::RestoreDatabase(
     RemoveFile(new_file_path);
     return status;
   }
-  new_dbm.SetDatabaseType(tmp_dbm.GetDatabaseType());
-  new_dbm.SetOpaqueMetadata(mini_opaque);
+  status |= new_dbm.SetDatabaseType(tmp_dbm.GetDatabaseType());
+  status |= new_dbm.SetOpaqueMetadata(mini_opaque);
   class Loader final : public RecordProcessor {
    public:
-    explicit Loader(TreeDBM* dbm) : dbm_(dbm) {}
+    explicit Loader(TreeDBM* dbm) : dbm_(dbm), status_(Status::SUCCESS) {}
+    Status GetStatus() const {
+      return status_;
+    }
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       if (key.size() != PAGE_ID_WIDTH) {
         return NOOP;
@@ -2954,7 +2957,10 @@ Status TreeDBM::RestoreDatabase(
       std::vector<TreeRecord*> records;
       if (DeserializeLeafNode(value, &prev_id, &next_id, &records) == Status::SUCCESS) {
         for (const auto* rec : records) {
-          dbm_->Set(rec->GetKey(), rec->GetValue(), false);
+          const Status set_status = dbm_->Set(rec->GetKey(), rec->GetValue(), false);
+          if (set_status != Status::DUPLICATION_ERROR) {
+            status_ |= set_status;
+          }
         }
       }
       FreeTreeRecords(&records);
@@ -2962,8 +2968,10 @@ Status TreeDBM::RestoreDatabase(
     }
    private:
     TreeDBM* dbm_;
+    Status status_;
   } loader(&new_dbm);
-  status = tmp_dbm.ProcessEach(&loader, false);
+  status |= tmp_dbm.ProcessEach(&loader, false);
+  status |= loader.GetStatus();
   status |= new_dbm.Close();
   tmp_dbm.Close();
   if (tmp_file_path != old_file_path) {
-- 
2.43.0


From 3e72aa2a0db3455ec7066e0baa5b035aed9d5190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:02 +0000
Subject: [PATCH 098/115] fix: keep the file of a hash database when replacing
 it fails

---
 tkrzw_dbm_hash.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 3d894b5..de60d7c 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1800,13 +1800,22 @@ Status HashDBMImpl::RebuildImpl(
       CleanUp();
       return status;
     }
-    fbp_.Clear();
     if (sync_hard) {
       status |= tmp_file->Synchronize(true);
     }
+    if (IS_POSIX) {
+      if (status == Status::SUCCESS) {
+        status |= tmp_file->Rename(path_);
+      }
+      if (status != Status::SUCCESS) {
+        tmp_file->Close();
+        CleanUp();
+        return status;
+      }
+    }
+    fbp_.Clear();
     status |= file_->DisablePathOperations();
     if (IS_POSIX) {
-      status |= tmp_file->Rename(path_);
       status |= file_->Close();
     } else {
       status |= file_->Close();
-- 
2.43.0


From ba8473773d5c66c5781bb744536be6dc7aa78bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 099/115] fix: do not write edge blocks which could not be read
 in positional files

---
 tkrzw_file_pos.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index b981b31..4fbb0c5 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -651,7 +651,9 @@ Status PositionalParallelFileImpl::WriteImpl(int64_t off, const char* buf, size_
       }
       std::memcpy(aligned + off_rem + size, block + end_rem, end_len);
     }
-    status |= PWriteSequence(fd_, mod_off, aligned, off_rem + size + end_len);
+    if (status == Status::SUCCESS) {
+      status |= PWriteSequence(fd_, mod_off, aligned, off_rem + size + end_len);
+    }
     xfreealigned(block);
     xfreealigned(aligned);
   } else if (reinterpret_cast<intptr_t>(buf) % block_size_ == 0) {
@@ -1350,7 +1352,9 @@ Status PositionalAtomicFileImpl::WriteImpl(int64_t off, const char* buf, size_t
       }
       std::memcpy(aligned + off_rem + size, block + end_rem, end_len);
     }
-    status |= PWriteSequence(fd_, mod_off, aligned, off_rem + size + end_len);
+    if (status == Status::SUCCESS) {
+      status |= PWriteSequence(fd_, mod_off, aligned, off_rem + size + end_len);
+    }
     xfreealigned(block);
     xfreealigned(aligned);
   } else if (reinterpret_cast<intptr_t>(buf) % block_size_ == 0) {
-- 
2.43.0


From d1736b10628e599fc8994f2a99b484a24698d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:06 +0000
Subject: [PATCH 100/115] fix: close a hash database which cannot be reopened
 after rebuilding

---
 tkrzw_dbm_hash.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index de60d7c..7d4f876 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1848,7 +1848,14 @@ Status HashDBMImpl::RebuildImpl(
     if (!tuning_params.cipher_key.empty()) {
       cipher_key_ = tuning_params.cipher_key;
     }
-    status |= OpenImpl(true);
+    const Status open_status = OpenImpl(true);
+    if (open_status != Status::SUCCESS) {
+      healthy_ = false;
+      CloseImpl();
+      file_->Close();
+      status |= open_status;
+      return status;
+    }
     db_type_ = db_type;
     opaque_ = opaque;
   }
-- 
2.43.0


From 9dd83fb8640759b1be4f0269cb12148dd3826e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:35 +0000
Subject: [PATCH 101/115] fix: discard the head buffer of positional files when
 reading it fails

---
 tkrzw_file_pos.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 4fbb0c5..3cf7349 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -456,7 +456,13 @@ Status PositionalParallelFileImpl::SetHeadBuffer(int64_t size) {
       std::max<int64_t>(sizeof(void*), block_size_), head_buffer_size_));
   std::memset(head_buffer_, 0, head_buffer_size_);
   const int64_t read_size = std::min<int64_t>(head_buffer_size_, file_size_.load());
-  status |= PReadSequence(fd_, 0, head_buffer_, read_size);
+  const Status read_status = PReadSequence(fd_, 0, head_buffer_, read_size);
+  if (read_status != Status::SUCCESS) {
+    xfreealigned(head_buffer_);
+    head_buffer_ = nullptr;
+    head_buffer_size_ = 0;
+    status |= read_status;
+  }
   return status;
 }
 
@@ -1154,7 +1160,13 @@ Status PositionalAtomicFileImpl::SetHeadBuffer(int64_t size) {
   head_buffer_ = static_cast<char*>(xmallocaligned(block_size_, head_buffer_size_));
   std::memset(head_buffer_, 0, head_buffer_size_);
   const int64_t read_size = std::min<int64_t>(head_buffer_size_, file_size_);
-  status |= PReadSequence(fd_, 0, head_buffer_, read_size);
+  const Status read_status = PReadSequence(fd_, 0, head_buffer_, read_size);
+  if (read_status != Status::SUCCESS) {
+    xfreealigned(head_buffer_);
+    head_buffer_ = nullptr;
+    head_buffer_size_ = 0;
+    status |= read_status;
+  }
   return status;
 }
 
-- 
2.43.0


From ff806d4733e82bfc1dd695f51cc8bcba38dd5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:15 +0000
Subject: [PATCH 102/115] fix: keep pages of the page cache which could not be
 written

---
 tkrzw_file_util.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index 50ca1b4..3a3c022 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -727,7 +727,9 @@ PageCache::~PageCache() {
       if (page.dirty) {
         WritePages(&slot, off, &page);
       }
-      xfreealigned(page.buf);
+    }
+    for (auto it = pages.begin(); it != pages.end(); ++it) {
+      xfreealigned(it->value.buf);
     }
     delete slot.pages;
   }
@@ -1083,6 +1085,9 @@ Status PageCache::ReduceCache(Slot* slot) {
     auto& page = rec.value;
     if (page.dirty) {
       status |= WritePages(slot, off, &page);
+      if (page.dirty) {
+        break;
+      }
     }
     xfreealigned(page.buf);
     pages.Remove(rec.key);
@@ -1138,24 +1143,29 @@ Status PageCache::WritePages(Slot* slot, int64_t off, Page* page) {
     for (int32_t i = num_prev_pages - 1; i >= 0; i--) {
       Page& prev_page = *prev_pages[i];
       std::memcpy(wp, prev_page.buf, prev_page.size);
-      prev_page.dirty = false;
       wp += prev_page.size;
     }
     std::memcpy(wp, page->buf, page->size);
-    page->dirty = false;
     wp += page->size;
     for (int32_t i = 0; i < num_next_pages; i++) {
       Page& next_page = *next_pages[i];
       std::memcpy(wp, next_page.buf, next_page.size);
-      next_page.dirty = false;
       wp += next_page.size;
     }
     status |= write_func_(off_begin, area_buf, area_size);
     xfreealigned(area_buf);
   } else {
-    page->dirty = false;
     status |= write_func_(off, page->buf, page->size);
   }
+  if (status == Status::SUCCESS) {
+    for (int32_t i = 0; i < num_prev_pages; i++) {
+      prev_pages[i]->dirty = false;
+    }
+    page->dirty = false;
+    for (int32_t i = 0; i < num_next_pages; i++) {
+      next_pages[i]->dirty = false;
+    }
+  }
   return status;
 }
 
-- 
2.43.0


From da3186f5bb52191a92bd11ced3ac82413cc25733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:26 +0000
Subject: [PATCH 103/115] fix: report that the file is closed in ProcessEach of
 HashDBM

---
 tkrzw_dbm_hash.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 7d4f876..bc0b8aa 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -519,7 +519,11 @@ Status HashDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
   ScopedHashLock record_lock(record_mutex_, writable);
   if (!writable && (static_flags_ & STATIC_FLAG_UPDATE_IN_PLACE)) {
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
-    const int64_t end_offset = file_->GetSizeSimple();
+    int64_t end_offset = 0;
+    const Status size_status = file_->GetSize(&end_offset);
+    if (size_status != Status::SUCCESS) {
+      return size_status;
+    }
     int64_t offset = record_base_;
     HashRecord rec(file_.get(), crc_width_, offset_width_, align_pow_);
     ScopedStringView comp_data_placeholder;
-- 
2.43.0


From fd62e48ad27fb157e36b6aa194587e144bd363dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:53 +0000
Subject: [PATCH 104/115] fix: check extending files in SkipDBM

---
 tkrzw_dbm_skip.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index ecaae5f..4daa4da 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -246,7 +246,11 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
     return status;
   }
   if (writable && file_->GetSizeSimple() < 1) {
-    file_->Truncate(METADATA_SIZE);
+    status = file_->Truncate(METADATA_SIZE);
+    if (status != Status::SUCCESS) {
+      file_->Close();
+      return status;
+    }
     const auto version_nums = StrSplit(PACKAGE_VERSION, '.');
     pkg_major_version_ = version_nums.size() > 0 ? StrToInt(version_nums[0]) : 0;
     pkg_minor_version_ = version_nums.size() > 1 ? StrToInt(version_nums[1]) : 0;
@@ -1308,7 +1312,10 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     if (status != Status::SUCCESS) {
       return status;
     }
-    merged_file->Truncate(METADATA_SIZE);
+    status = merged_file->Truncate(METADATA_SIZE);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
     written_num_records_ = 0;
     written_eff_data_size_ = 0;
     record_index_ = 0;
-- 
2.43.0


From fd8c4b53aa77368bd72a218d1510a71e0699da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:10 +0000
Subject: [PATCH 105/115] fix: keep the map of memory mapping files when
 shrinking the file fails

---
 tkrzw_file_mmap.cc | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index 5e50ff7..3cb7640 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -236,12 +236,9 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   int64_t new_map_size =
       std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
   new_map_size = AlignNumber(new_map_size, PAGE_SIZE);
-  const bool growing = new_map_size > map_size_.load();
-  if (growing) {
-    const Status status = TruncateFile(fd_, new_map_size);
-    if (status != Status::SUCCESS) {
-      return status;
-    }
+  const Status status = TruncateFile(fd_, new_map_size);
+  if (status != Status::SUCCESS) {
+    return status;
   }
   void* new_map = tkrzw_mremap(map_, map_size_.load(), new_map_size, fd_);
   if (new_map == MAP_FAILED) {
@@ -254,12 +251,6 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   AdviseMemoryRandomAccessPattern(new_map, new_map_size);
   map_ = static_cast<char*>(new_map);
   map_size_.store(new_map_size);
-  if (!growing) {
-    const Status status = TruncateFile(fd_, new_map_size);
-    if (status != Status::SUCCESS) {
-      return status;
-    }
-  }
   const int64_t stale_end = std::min(file_size_.load(), new_map_size);
   if (size < stale_end) {
     std::memset(map_ + size, 0, stale_end - size);
@@ -804,12 +795,9 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   int64_t new_map_size =
       std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
   new_map_size = AlignNumber(new_map_size, PAGE_SIZE);
-  const bool growing = new_map_size > map_size_;
-  if (growing) {
-    const Status status = TruncateFile(fd_, new_map_size);
-    if (status != Status::SUCCESS) {
-      return status;
-    }
+  const Status status = TruncateFile(fd_, new_map_size);
+  if (status != Status::SUCCESS) {
+    return status;
   }
   void* new_map = tkrzw_mremap(map_, map_size_, new_map_size, fd_);
   if (new_map == MAP_FAILED) {
@@ -821,12 +809,6 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   }
   map_ = static_cast<char*>(new_map);
   map_size_ = new_map_size;
-  if (!growing) {
-    const Status status = TruncateFile(fd_, new_map_size);
-    if (status != Status::SUCCESS) {
-      return status;
-    }
-  }
   const int64_t stale_end = std::min(file_size_, new_map_size);
   if (size < stale_end) {
     std::memset(map_ + size, 0, stale_end - size);
-- 
2.43.0


From 3fd6c6792ee0ee477a82da92ee657ec6c48a084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 106/115] fix: do not lose records of a skip database whose
 file has become unavailable

---
 tkrzw_dbm_skip.cc      | 10 +++++++---
 tkrzw_dbm_skip_impl.cc |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 4daa4da..57d764f 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1265,9 +1265,13 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   const int64_t old_num_records = num_records_;
   const int64_t old_eff_data_size = eff_data_size_;
   const int64_t old_file_size = file_size_;
-  Status status(Status::SUCCESS);
+  int64_t base_file_size = 0;
+  Status status = file_->GetSize(&base_file_size);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   if (reducer == nullptr && sorted_file_ != nullptr &&
-      file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
+      base_file_size == static_cast<int64_t>(METADATA_SIZE) &&
       !record_sorter_->IsUpdated() && !removed_) {
     num_records_ = written_num_records_;
     eff_data_size_ = written_eff_data_size_;
@@ -1293,7 +1297,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     }
     file_ = std::move(sorted_file_);
   } else {
-    if (file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
+    if (base_file_size > static_cast<int64_t>(METADATA_SIZE)) {
       record_sorter_->AddSkipRecord(new SkipRecord(
           file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE, true);
     }
diff --git a/tkrzw_dbm_skip_impl.cc b/tkrzw_dbm_skip_impl.cc
index 685e630..65f95ae 100644
--- a/tkrzw_dbm_skip_impl.cc
+++ b/tkrzw_dbm_skip_impl.cc
@@ -577,6 +577,7 @@ Status RecordSorter::Finish() {
   if (finished_) {
     return Status(Status::INFEASIBLE_ERROR, "already finished");
   }
+  finished_ = true;
   if (!current_records_.empty()) {
     const Status status = Flush();
     if (status != Status::SUCCESS) {
@@ -639,7 +640,6 @@ Status RecordSorter::Finish() {
     heap_.emplace_back(&slots_.back());
     std::push_heap(heap_.begin(), heap_.end(), SortSlotComparator());
   }
-  finished_ = true;
   return Status(Status::SUCCESS);
 }
 
-- 
2.43.0


From 912cdf08ebac507ac1e137644ee56bbd04e65780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:46 +0000
Subject: [PATCH 107/115] fix: keep pages of a tree database dirty when saving
 them fails

---
 tkrzw_dbm_tree.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 0f4d1d2..4aefdf5 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -1398,7 +1398,9 @@ Status TreeDBMImpl::SaveLeafNodeImpl(TreeLeafNode* node) {
   if (write_buf != stack) {
     delete[] write_buf;
   }
-  node->dirty = false;
+  if (status == Status::SUCCESS) {
+    node->dirty = false;
+  }
   node->on_disk = true;
   return status;
 }
@@ -1540,7 +1542,9 @@ Status TreeDBMImpl::SaveInnerNode(TreeInnerNode* node) {
   if (write_buf != stack) {
     delete[] write_buf;
   }
-  node->dirty = false;
+  if (status == Status::SUCCESS) {
+    node->dirty = false;
+  }
   node->on_disk = true;
   return status;
 }
-- 
2.43.0


From 3b3530eb0dd1c2cab70ba0b4a8f333afab17506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:56 +0000
Subject: [PATCH 108/115] fix: check loading metadata after rebuilding SkipDBM

---
 tkrzw_dbm_skip.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 57d764f..8428c14 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -844,7 +844,13 @@ Status SkipDBMImpl::Rebuild(
   file_ = std::move(rebuild_file);
   const uint32_t db_type = db_type_;
   const std::string opaque = opaque_;
-  LoadMetadata();
+  const Status load_status = LoadMetadata();
+  if (load_status != Status::SUCCESS) {
+    healthy_ = false;
+    file_->Close();
+    status |= load_status;
+    return status;
+  }
   db_type_ = db_type;
   opaque_ = opaque;
   file_size_ = file_->GetSizeSimple();
-- 
2.43.0


From 89d23d2db50207480c78a855ff4fb9670b6c0194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:25 +0000
Subject: [PATCH 109/115] fix: do not use a skip database whose extra region
 could not be removed

---
 tkrzw_dbm_skip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 8428c14..00ec382 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -282,6 +282,7 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
         status = writable ? file_->Truncate(file_size_) : file_->TruncateFakely(file_size_);
         if (status != Status::SUCCESS) {
           healthy = false;
+          invalid_file_size = true;
         }
       } else {
         healthy = false;
-- 
2.43.0


From 2527099425b02f33e6600e43d98f2d15f14fac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:01 +0000
Subject: [PATCH 110/115] fix: do not clear the metadata of SkipDBM if
 truncating the file fails

---
 tkrzw_dbm_skip.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 00ec382..4bbf63c 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -704,6 +704,10 @@ Status SkipDBMImpl::Clear() {
   }
   CancelIterators();
   Status status = file_->Truncate(METADATA_SIZE);
+  if (status != Status::SUCCESS) {
+    PrepareStorage();
+    return status;
+  }
   num_records_ = 0;
   eff_data_size_ = 0;
   file_size_ = file_->GetSizeSimple();
-- 
2.43.0


From 4cc3527512f178b78284a3c69e938f22ddf31d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:50 +0000
Subject: [PATCH 111/115] fix: do not shrink positional files further when
 truncating them fails

---
 tkrzw_file_pos.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 3cf7349..4467d43 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -362,8 +362,14 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
   }
   if (size < file_size_.load()) {
     status |= TruncateFile(fd_, size);
+    if (status == Status::SUCCESS) {
+      file_size_.store(size);
+      trunc_size_.store(size);
+    }
+  }
+  if (status == Status::SUCCESS) {
+    status |= TruncateFile(fd_, new_trunc_size);
   }
-  status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_.store(size);
     trunc_size_.store(new_trunc_size);
@@ -1063,8 +1069,14 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
   }
   if (size < file_size_) {
     status |= TruncateFile(fd_, size);
+    if (status == Status::SUCCESS) {
+      file_size_ = size;
+      trunc_size_ = size;
+    }
+  }
+  if (status == Status::SUCCESS) {
+    status |= TruncateFile(fd_, new_trunc_size);
   }
-  status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_ = size;
     trunc_size_ = new_trunc_size;
-- 
2.43.0


From a7299e50e396c6573b23d570d6f1aa41c4cb34e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:43 +0000
Subject: [PATCH 112/115] fix: let SkipDBM without saved records be closed even
 if its file is unavailable

---
 tkrzw_dbm_skip.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 4bbf63c..542780c 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1279,7 +1279,10 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   int64_t base_file_size = 0;
   Status status = file_->GetSize(&base_file_size);
   if (status != Status::SUCCESS) {
-    return status;
+    if (num_records_ > 0) {
+      return status;
+    }
+    status.Set(Status::SUCCESS);
   }
   if (reducer == nullptr && sorted_file_ != nullptr &&
       base_file_size == static_cast<int64_t>(METADATA_SIZE) &&
-- 
2.43.0


From 507a1ce911ca8e2fdbe318f4a9d485fb91e5a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:31 +0000
Subject: [PATCH 113/115] fix: do not lose the notification of stopping task
 queues

---
 tkrzw_thread_util.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index e769097..2f51578 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -1520,7 +1520,10 @@ inline void TaskQueue::Stop(double timeout) {
     cond_.notify_all();
     SleepThread(0.01);
   }
-  running_.store(false);
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    running_.store(false);
+  }
   cond_.notify_all();
   for (auto& thread : threads_) {
     thread.join();
-- 
2.43.0


From 99ef5dc922a90dfc915de4e3a241b7790e76aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:31 +0000
Subject: [PATCH 114/115] fix: do not lose the notification of wait counters

---
 tkrzw_thread_util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index 2f51578..725f097 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -1560,6 +1560,7 @@ inline int32_t WaitCounter::Get() const {
 }
 
 inline void WaitCounter::Done(int32_t decrement) {
+  std::lock_guard<std::mutex> lock(mutex_);
   if (count_.fetch_sub(decrement) <= decrement) {
     cond_.notify_all();
   }
-- 
2.43.0


From 26ad1dcbd2f7d46380c2f24f86c3d11213ed38bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:16 +0000
Subject: [PATCH 115/115] fix: do not lose signals sent before waiting and
 signals to one of many waiting threads

---
 tkrzw_thread_util.h | 217 +++++++++++++++++++++++++++++---------------
 1 file changed, 145 insertions(+), 72 deletions(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index 725f097..c0ccdbe 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -14,10 +14,15 @@
 #ifndef _TKRZW_THREAD_UTIL_H
 #define _TKRZW_THREAD_UTIL_H
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <list>
+#include <map>
+#include <memory>
+#include <mutex>
 #include <queue>
 #include <set>
 #include <shared_mutex>
@@ -863,6 +868,7 @@ class SignalBroker final {
    * method should be called if the resource state doesn't satisfy the required condition.
    */
   class Waiter {
+    friend class SignalBroker;
    public:
     /**
      * Constructor.
@@ -875,19 +881,30 @@ class SignalBroker final {
      */
     ~Waiter();
 
+    /**
+     * Copy and assignment are disabled.
+     */
+    explicit Waiter(const Waiter& rhs) = delete;
+    Waiter& operator =(const Waiter& rhs) = delete;
+
     /**
      * Waits for a signal to happen.
      * @param timeout The timeout in seconds to wait.   Zero means no wait.  Negative means
      * unlimited.
      * @return True if successful or false on timeout.
-     * @details This detects only signals which happen during this method is running.  In other
-     * words, signals which were sent before the call are not ignored.
+     * @details This detects signals which are sent after the waiter is constructed.
      **/
     bool Wait(double timeout = -1);
 
    private:
     /** The broker object. */
     SignalBroker* broker_;
+    /** Whether the thread is waiting now. */
+    bool waiting_;
+    /** Whether a signal has been received. */
+    bool signaled_;
+    /** Whether the received signal was sent to only this waiter. */
+    bool exclusive_;
   };
 
   /**
@@ -904,14 +921,18 @@ class SignalBroker final {
   bool Send(bool all = true);
 
  private:
-  /** The number of waiting threads. */
-  int32_t wait_count_;
-  /** The mutex to guard the counter. */
+  /**
+   * Marks one of the waiters as signaled, preferring threads which are waiting now.
+   * @details Precondition: There is a waiter and the mutex is locked.
+   */
+  void NotifyOne();
+
+  /** The waiters which have not received a signal yet. */
+  std::list<Waiter*> waiters_;
+  /** The mutex to guard the waiters. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
-  /** The mutex to guard notification. */
-  SpinSharedMutex notify_mutex_;
 };
 
 /**
@@ -927,6 +948,7 @@ class KeySignalBroker final {
    * method should be called if the resource state doesn't satisfy the required condition.
    */
   class Waiter {
+    friend class KeySignalBroker;
    public:
     /**
      * Constructor.
@@ -940,13 +962,18 @@ class KeySignalBroker final {
      */
     ~Waiter();
 
+    /**
+     * Copy and assignment are disabled.
+     */
+    explicit Waiter(const Waiter& rhs) = delete;
+    Waiter& operator =(const Waiter& rhs) = delete;
+
     /**
      * Waits for a signal to happen.
      * @param timeout The timeout in seconds to wait.   Zero means no wait.  Negative means
      * unlimited.
      * @return True if successful or false on timeout.
-     * @details This detects only signals which happen during this method is running.  In other
-     * words, signals which were sent before the call are not ignored.
+     * @details This detects signals which are sent after the waiter is constructed.
      **/
     bool Wait(double timeout = -1);
 
@@ -955,6 +982,12 @@ class KeySignalBroker final {
     KeySignalBroker* broker_;
     /** The key of the signal. */
     KEYTYPE key_;
+    /** Whether the thread is waiting now. */
+    bool waiting_;
+    /** Whether a signal has been received. */
+    bool signaled_;
+    /** Whether the received signal was sent to only this waiter. */
+    bool exclusive_;
   };
 
   /**
@@ -972,14 +1005,19 @@ class KeySignalBroker final {
   bool Send(const KEYTYPE& key, bool all = true);
 
  private:
-  /** The set of event keys and the wait count. */
-  std::map<KEYTYPE, int32_t> counts_;
-  /** The mutex to guard the counter. */
+  /**
+   * Marks one of the waiters as signaled, preferring threads which are waiting now.
+   * @param waiters The waiters of a key, which should not be empty.
+   * @details Precondition: The mutex is locked.
+   */
+  void NotifyOne(std::list<Waiter*>* waiters);
+
+  /** The event keys and the waiters which have not received a signal yet. */
+  std::map<KEYTYPE, std::list<Waiter*>> waiters_;
+  /** The mutex to guard the waiters. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
-  /** The mutex to guard notification. */
-  SpinSharedMutex notify_mutex_;
 };
 
 /**
@@ -1008,8 +1046,7 @@ class SlottedKeySignalBroker final {
      * @param timeout The timeout in seconds to wait.   Zero means no wait.  Negative means
      * unlimited.
      * @return True if successful or false on timeout.
-     * @details This detects only signals which happen during this method is running.  In other
-     * words, signals which were sent before the call are not ignored.
+     * @details This detects signals which are sent after the waiter is constructed.
      **/
     bool Wait(double timeout = -1);
 
@@ -1584,31 +1621,49 @@ inline bool WaitCounter::Wait(double timeout) {
   return true;
 }
 
-inline SignalBroker::SignalBroker() : wait_count_(false), mutex_(), cond_(), notify_mutex_() {}
+inline SignalBroker::SignalBroker() : waiters_(), mutex_(), cond_() {}
 
 inline bool SignalBroker::Send(bool all) {
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
-    if (wait_count_ == 0) {
-      return false;
-    }
-    wait_count_ = 0;
+  std::lock_guard<std::mutex> lock(mutex_);
+  if (waiters_.empty()) {
+    return false;
   }
-  std::lock_guard lock(notify_mutex_);
   if (all) {
-    cond_.notify_all();
+    for (auto* waiter : waiters_) {
+      waiter->signaled_ = true;
+    }
+    waiters_.clear();
   } else {
-    cond_.notify_one();
+    NotifyOne();
   }
+  cond_.notify_all();
   return true;
 }
 
-inline SignalBroker::Waiter::Waiter(SignalBroker* broker) : broker_(broker) {
-  broker_->notify_mutex_.lock_shared();
+inline void SignalBroker::NotifyOne() {
+  auto it = std::find_if(waiters_.begin(), waiters_.end(),
+                         [](const Waiter* waiter) { return waiter->waiting_; });
+  if (it == waiters_.end()) {
+    it = waiters_.begin();
+  }
+  (*it)->signaled_ = true;
+  (*it)->exclusive_ = true;
+  waiters_.erase(it);
+}
+
+inline SignalBroker::Waiter::Waiter(SignalBroker* broker)
+    : broker_(broker), waiting_(false), signaled_(false), exclusive_(false) {
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  broker_->waiters_.emplace_back(this);
 }
 
 inline SignalBroker::Waiter::~Waiter() {
-  broker_->notify_mutex_.unlock_shared();
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  broker_->waiters_.remove(this);
+  if (signaled_ && exclusive_ && !broker_->waiters_.empty()) {
+    broker_->NotifyOne();
+    broker_->cond_.notify_all();
+  }
 }
 
 inline bool SignalBroker::Waiter::Wait(double timeout) {
@@ -1618,52 +1673,77 @@ inline bool SignalBroker::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->wait_count_++;
-  while (broker_->wait_count_ != 0) {
-    broker_->notify_mutex_.unlock_shared();
-    auto wait_rv = broker_->cond_.wait_until(lock, deadline);
-    broker_->notify_mutex_.lock_shared();
-    if (wait_rv == std::cv_status::timeout) {
-      if (broker_->wait_count_ == 0) {
-        return true;
-      }
-      broker_->wait_count_--;
-      return false;
-    }
+  auto& waiters = broker_->waiters_;
+  if (!signaled_ && std::find(waiters.begin(), waiters.end(), this) == waiters.end()) {
+    waiters.emplace_back(this);
   }
-  return true;
+  waiting_ = true;
+  const bool received = broker_->cond_.wait_until(lock, deadline, [&]() { return signaled_; });
+  waiting_ = false;
+  signaled_ = false;
+  exclusive_ = false;
+  return received;
 }
 
 template<typename KEYTYPE>
-inline KeySignalBroker<KEYTYPE>::KeySignalBroker()
-    : counts_(), mutex_(), cond_(), notify_mutex_() {}
+inline KeySignalBroker<KEYTYPE>::KeySignalBroker() : waiters_(), mutex_(), cond_() {}
 
 template<typename KEYTYPE>
 inline bool KeySignalBroker<KEYTYPE>::Send(const KEYTYPE& key, bool all) {
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
-    if (counts_.erase(key) == 0) {
-      return false;
-    }
+  std::lock_guard<std::mutex> lock(mutex_);
+  auto map_it = waiters_.find(key);
+  if (map_it == waiters_.end()) {
+    return false;
   }
-  std::lock_guard lock(notify_mutex_);
+  auto& waiters = map_it->second;
   if (all) {
-    cond_.notify_all();
+    for (auto* waiter : waiters) {
+      waiter->signaled_ = true;
+    }
+    waiters.clear();
   } else {
-    cond_.notify_one();
+    NotifyOne(&waiters);
+  }
+  if (waiters.empty()) {
+    waiters_.erase(map_it);
   }
+  cond_.notify_all();
   return true;
 }
 
+template<typename KEYTYPE>
+inline void KeySignalBroker<KEYTYPE>::NotifyOne(std::list<Waiter*>* waiters) {
+  auto it = std::find_if(waiters->begin(), waiters->end(),
+                         [](const Waiter* waiter) { return waiter->waiting_; });
+  if (it == waiters->end()) {
+    it = waiters->begin();
+  }
+  (*it)->signaled_ = true;
+  (*it)->exclusive_ = true;
+  waiters->erase(it);
+}
+
 template<typename KEYTYPE>
 inline KeySignalBroker<KEYTYPE>::Waiter::Waiter(KeySignalBroker* broker, const KEYTYPE& key)
-    : broker_(broker), key_(key) {
-  broker_->notify_mutex_.lock_shared();
+    : broker_(broker), key_(key), waiting_(false), signaled_(false), exclusive_(false) {
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  broker_->waiters_[key_].emplace_back(this);
 }
 
 template<typename KEYTYPE>
 inline KeySignalBroker<KEYTYPE>::Waiter::~Waiter() {
-  broker_->notify_mutex_.unlock_shared();
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  auto map_it = broker_->waiters_.find(key_);
+  if (map_it != broker_->waiters_.end()) {
+    map_it->second.remove(this);
+    if (signaled_ && exclusive_ && !map_it->second.empty()) {
+      broker_->NotifyOne(&map_it->second);
+      broker_->cond_.notify_all();
+    }
+    if (map_it->second.empty()) {
+      broker_->waiters_.erase(map_it);
+    }
+  }
 }
 
 template<typename KEYTYPE>
@@ -1674,25 +1754,18 @@ inline bool KeySignalBroker<KEYTYPE>::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->counts_[key_]++;
-  while (broker_->counts_.find(key_) != broker_->counts_.end()) {
-    broker_->notify_mutex_.unlock_shared();
-    auto wait_rv = broker_->cond_.wait_until(lock, deadline);
-    broker_->notify_mutex_.lock_shared();
-    if (wait_rv == std::cv_status::timeout) {
-      auto it = broker_->counts_.find(key_);
-      if (it == broker_->counts_.end()) {
-        return true;
-      }
-      if (it->second > 1) {
-        it->second--;
-      } else {
-        broker_->counts_.erase(it);
-      }
-      return false;
+  if (!signaled_) {
+    auto& waiters = broker_->waiters_[key_];
+    if (std::find(waiters.begin(), waiters.end(), this) == waiters.end()) {
+      waiters.emplace_back(this);
     }
   }
-  return true;
+  waiting_ = true;
+  const bool received = broker_->cond_.wait_until(lock, deadline, [&]() { return signaled_; });
+  waiting_ = false;
+  signaled_ = false;
+  exclusive_ = false;
+  return received;
 }
 
 template<typename KEYTYPE>
-- 
2.43.0

