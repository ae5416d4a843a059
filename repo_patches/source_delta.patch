From a334ad52b359cefaba81a991ac8015c748b2b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 01/51] fix: WAL appends behind a damaged tail and unreported
 write failures lose acknowledged commits

Replay stops at the first damaged frame, so anything appended behind the remains of an interrupted
append was never replayed: cut the tail before the first append. Report failed writes and syncs
instead of acknowledging the commit, and sync the directory entries of a newly created log.
---
 include/recovery/write_ahead_log.hpp | 115 +++++++++++++++++++++------
 1 file changed, 90 insertions(+), 25 deletions(-)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index e11752c..7799a19 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -170,33 +170,11 @@ class WriteAheadLog {
 
     uint64_t max_op_id = applied_through;
     while (true) {
-      auto header = read_frame_header(input);
+      std::vector<char> payload;
+      auto header = read_frame(input, wal_file_size, payload);
       if (!header.has_value()) {
         break;
       }
-      if (!payload_size_is_plausible(input, wal_file_size, header->payload_size_)) {
-        LOG_WARN("WAL payload size is invalid: op_id={} payload_size={} path={}",
-                 header->op_id_,
-                 header->payload_size_,
-                 path_.string());
-        break;
-      }
-
-      std::vector<char> payload(static_cast<size_t>(header->payload_size_));
-      if (header->payload_size_ > 0) {
-        input.read(payload.data(), static_cast<std::streamsize>(payload.size()));
-        if (!input) {
-          LOG_WARN("WAL truncated while reading payload at {}", path_.string());
-          break;
-        }
-      }
-
-      uint32_t trailer = 0;
-      input.read(reinterpret_cast<char *>(&trailer), sizeof(trailer));
-      if (!input || trailer != kWalTrailerMagic) {
-        LOG_WARN("WAL truncated or corrupted while reading trailer at {}", path_.string());
-        break;
-      }
 
       max_op_id = std::max(max_op_id, header->op_id_);
       if (header->frame_type_ == WalFrameType::kPrepare) {
@@ -294,13 +272,95 @@ class WriteAheadLog {
            static_cast<uintmax_t>(payload_size) <= remaining_bytes - kTrailerSize;
   }
 
+  /**
+   * @brief Reads one complete frame, leaving the stream positioned behind its trailer.
+   *
+   * Returns std::nullopt at the end of the log and for the first truncated or corrupted frame.
+   */
+  [[nodiscard]] auto read_frame(std::ifstream &input,
+                                uintmax_t wal_file_size,
+                                std::vector<char> &payload) const -> std::optional<FrameHeader> {
+    auto header = read_frame_header(input);
+    if (!header.has_value()) {
+      return std::nullopt;
+    }
+    if (!payload_size_is_plausible(input, wal_file_size, header->payload_size_)) {
+      LOG_WARN("WAL payload size is invalid: op_id={} payload_size={} path={}",
+               header->op_id_,
+               header->payload_size_,
+               path_.string());
+      return std::nullopt;
+    }
+
+    payload.resize(static_cast<size_t>(header->payload_size_));
+    if (header->payload_size_ > 0) {
+      input.read(payload.data(), static_cast<std::streamsize>(payload.size()));
+      if (!input) {
+        LOG_WARN("WAL truncated while reading payload at {}", path_.string());
+        return std::nullopt;
+      }
+    }
+
+    uint32_t trailer = 0;
+    input.read(reinterpret_cast<char *>(&trailer), sizeof(trailer));
+    if (!input || trailer != kWalTrailerMagic) {
+      LOG_WARN("WAL truncated or corrupted while reading trailer at {}", path_.string());
+      return std::nullopt;
+    }
+    return header;
+  }
+
+  /**
+   * @brief Cuts off whatever follows the last complete frame of an existing log.
+   *
+   * Replay stops at the first damaged frame, so frames appended behind the remains of an
+   * interrupted append would never be replayed.
+   */
+  auto drop_damaged_tail() const -> void {
+    if (!fs::exists(path_)) {
+      return;
+    }
+    const auto wal_file_size = fs::file_size(path_);
+    uintmax_t valid_size = 0;
+    {
+      std::ifstream input(path_, std::ios::binary);
+      if (!input.is_open()) {
+        throw std::runtime_error("Failed to open WAL file at " + path_.string());
+      }
+      std::vector<char> payload;
+      while (read_frame(input, wal_file_size, payload).has_value()) {
+        valid_size = static_cast<uintmax_t>(input.tellg());
+      }
+      if (input.bad()) {
+        throw std::runtime_error("Failed to read WAL file at " + path_.string());
+      }
+    }
+    if (valid_size < wal_file_size) {
+      LOG_WARN("WAL at {}: dropping {} bytes behind the last complete frame",
+               path_.string(),
+               wal_file_size - valid_size);
+      fs::resize_file(path_, valid_size);
+    }
+  }
+
   auto ensure_stream_open() const -> void {
     if (!wal_stream_.is_open()) {
       fs::create_directories(path_.parent_path());
+      drop_damaged_tail();
+      wal_stream_.clear();
       wal_stream_.open(path_, std::ios::binary | std::ios::app);
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
       }
+      // The log is only durable once the directory entries that lead to it are.
+      try {
+        const auto wal_dir = fs::canonical(path_).parent_path();
+        platform::sync_directory_or_throw(wal_dir);
+        platform::sync_directory_or_throw(wal_dir.parent_path());
+      } catch (...) {
+        wal_stream_.close();
+        throw;
+      }
     }
   }
 
@@ -350,12 +410,17 @@ class WriteAheadLog {
 
     wal_stream_.write(buf.data(), static_cast<std::streamsize>(buf.size()));
     wal_stream_.flush();
+    if (!wal_stream_) {
+      // Part of the frame may have reached the file: the next append reopens the log and drops it.
+      wal_stream_.close();
+      throw std::runtime_error("Failed to append to WAL file at " + path_.string());
+    }
 
     // Only fsync on COMMIT frames. PREPARE frames are durable enough after
     // flush — a crash between PREPARE and COMMIT leaves an uncommitted record
     // that is correctly skipped during replay.
     if (frame_type == WalFrameType::kCommit) {
-      platform::sync_file(path_);
+      platform::sync_file_or_throw(path_);
     }
   }
 
-- 
2.43.0


From 56ad9c5ed73d2133a7f4b08c053eeba4d9ee9c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:18 +0000
Subject: [PATCH 02/51] fix: next operation id fell back below the snapshot
 once the WAL was truncated

The scan overwrote the lower bound taken from the active snapshot.
---
 include/recovery/recovery_manager.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index e142eb9..83baa5c 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -58,7 +58,8 @@ class RecoveryManager {
     if (manifest.has_value()) {
       max_seen = manifest->applied_through_op_id_;
     }
-    (void)wal_.replayable_records(0, &max_seen);
+    const uint64_t applied_through = max_seen;
+    (void)wal_.replayable_records(applied_through, &max_seen);
     return max_seen + 1;
   }
 
-- 
2.43.0


From 29578f2ad900b21c9ed152b0091d14426a565835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 03/51] fix: a crash or disk error while publishing a snapshot
 could lose the active one

Force the snapshot's components and directory entries to stable storage before CURRENT names it and
the WAL goes, report failed manifest writes and syncs, and never reuse the directory of another
snapshot when the clock repeats a value.
---
 include/recovery/recovery_manager.hpp | 57 ++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 83baa5c..860289a 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -66,28 +66,38 @@ class RecoveryManager {
   [[nodiscard]] auto create_snapshot_dir() const -> fs::path {
     ensure_layout();
     auto now = SnapshotManifest::current_unix_ms();
-    std::ostringstream name;
-    name << "snapshot-" << now;
-    auto snapshot_dir = snapshots_dir_ / name.str();
-    fs::create_directories(snapshot_dir);
-    return snapshot_dir;
+    // The clock may repeat a value: never hand out the directory of another snapshot.
+    for (uint64_t attempt = 0;; ++attempt) {
+      std::ostringstream name;
+      name << "snapshot-" << now;
+      if (attempt > 0) {
+        name << '-' << attempt;
+      }
+      auto snapshot_dir = snapshots_dir_ / name.str();
+      if (fs::create_directory(snapshot_dir)) {
+        return snapshot_dir;
+      }
+    }
   }
 
-  // TODO(P2): The snapshot directory is only published after graph files and the RocksDB
-  // checkpoint are written, so a process crash before CURRENT is updated leaves the old snapshot
-  // active. Remaining risk: component writes are not durably staged as a unit, RocksDB checkpoint
-  // failures are not surfaced to the publisher, and there is no READY marker or checksum proving
-  // that every component reached stable storage before CURRENT is advanced.
+  // TODO(P2): RocksDB checkpoint failures are not surfaced to the publisher, and there is no READY
+  // marker or checksum proving that every component is complete before CURRENT is advanced.
   /**
    * @brief Publishes a completed snapshot and makes it the recovery CURRENT target.
    *
-   * The manifest and CURRENT pointer are written atomically, then the WAL is truncated because all
-   * operations through the manifest are represented in the snapshot. Older snapshot directories are
-   * cleaned up after the new snapshot is visible.
+   * The snapshot components are forced to stable storage, the manifest and CURRENT pointer are
+   * written atomically, then the WAL is truncated because all operations through the manifest are
+   * represented in the snapshot. Older snapshot directories are cleaned up after the new snapshot
+   * is visible.
    */
   auto publish_snapshot(const SnapshotManifest &manifest, const fs::path &snapshot_dir) const
       -> void {
     ensure_layout();
+    fs::create_directories(snapshot_dir);
+    sync_tree(snapshot_dir);
+    platform::sync_directory_or_throw(snapshots_dir_);
+    platform::sync_directory_or_throw(root_dir_);
+    platform::sync_directory_or_throw(fs::canonical(root_dir_).parent_path());
     auto manifest_path = snapshot_dir / "manifest.txt";
     write_text_atomically(manifest_path, manifest.serialize());
     write_text_atomically(current_path_, manifest.snapshot_id_ + "\n");
@@ -255,11 +265,28 @@ class RecoveryManager {
       output.write(content.data(), static_cast<std::streamsize>(content.size()));
       output.flush();
       output.close();
+      if (!output) {
+        throw std::runtime_error("Failed to write " + tmp_path.string());
+      }
     }
 
-    platform::sync_file(tmp_path);
+    platform::sync_file_or_throw(tmp_path);
     platform::atomic_replace(tmp_path, path);
-    platform::sync_directory(path.parent_path());
+    platform::sync_directory_or_throw(path.parent_path());
+  }
+
+  /**
+   * @brief Forces every file and directory below a directory, and itself, to stable storage.
+   */
+  static auto sync_tree(const fs::path &dir) -> void {
+    for (const auto &entry : fs::recursive_directory_iterator(dir)) {
+      if (entry.is_directory()) {
+        platform::sync_directory_or_throw(entry.path());
+      } else if (entry.is_regular_file()) {
+        platform::sync_file_or_throw(entry.path());
+      }
+    }
+    platform::sync_directory_or_throw(dir);
   }
 
   /**
-- 
2.43.0


From eb65bd1d3daaa8a684485cd2ab9ee10c4d7030fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 04/51] fix: replay could return a committed operation with a
 damaged payload

Only the COMMIT is synced, so a crash may keep it and lose part of the PREPARE frame before it. Carry
a checksum of the prepared payload in the COMMIT frame and check it on replay; commits of existing
logs carry none and are accepted as before.
---
 include/recovery/write_ahead_log.hpp | 50 ++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index 7799a19..2caf0cb 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -95,11 +95,28 @@ class WriteAheadLog {
 
   auto append_prepare(const WalRecord &record) const -> void {
     append_frame(WalFrameType::kPrepare, record);
+    std::lock_guard<std::mutex> lock(wal_mutex_);
+    prepared_checksums_[record.op_id_] = payload_checksum(record.payload_);
   }
 
+  /**
+   * @brief Appends the COMMIT frame of a prepared operation and makes it durable.
+   *
+   * The frame carries a checksum of the prepared payload: a crash may keep the COMMIT frame and lose
+   * part of the PREPARE frame before it, and replay must not take such an operation for committed.
+   */
   auto append_commit(uint64_t op_id, MutationType mutation_type) const -> void {
-    append_frame(WalFrameType::kCommit,
-                 WalRecord{.op_id_ = op_id, .mutation_type_ = mutation_type, .payload_ = {}});
+    WalRecord commit{.op_id_ = op_id, .mutation_type_ = mutation_type, .payload_ = {}};
+    {
+      std::lock_guard<std::mutex> lock(wal_mutex_);
+      auto checksum_it = prepared_checksums_.find(op_id);
+      if (checksum_it != prepared_checksums_.end()) {
+        commit.payload_.resize(sizeof(checksum_it->second));
+        std::memcpy(commit.payload_.data(), &checksum_it->second, sizeof(checksum_it->second));
+        prepared_checksums_.erase(checksum_it);
+      }
+    }
+    append_frame(WalFrameType::kCommit, commit);
   }
 
   auto truncate() const -> void {
@@ -107,6 +124,7 @@ class WriteAheadLog {
     if (wal_stream_.is_open()) {
       wal_stream_.close();
     }
+    prepared_checksums_.clear();
     std::error_code ec;
     fs::remove(path_, ec);
     if (ec) {
@@ -194,6 +212,11 @@ class WriteAheadLog {
         pending.erase(pending_it);
         continue;
       }
+      if (!commit_matches_payload(payload, pending_it->second.payload_)) {
+        LOG_WARN("WAL prepare payload is damaged: op_id={}", header->op_id_);
+        pending.erase(pending_it);
+        continue;
+      }
       if (header->op_id_ > applied_through) {
         committed.push_back(std::move(pending_it->second));
       }
@@ -244,6 +267,27 @@ class WriteAheadLog {
     }
   }
 
+  /// FNV-1a over the payload bytes.
+  [[nodiscard]] static auto payload_checksum(const std::vector<char> &payload) -> uint32_t {
+    uint32_t checksum = 2166136261U;
+    for (const char byte : payload) {
+      checksum = (checksum ^ static_cast<uint8_t>(byte)) * 16777619U;
+    }
+    return checksum;
+  }
+
+  /// COMMIT frames written by earlier versions carry no checksum and match any payload.
+  [[nodiscard]] static auto commit_matches_payload(const std::vector<char> &commit_payload,
+                                                   const std::vector<char> &prepared_payload)
+      -> bool {
+    uint32_t checksum = 0;
+    if (commit_payload.size() != sizeof(checksum)) {
+      return commit_payload.empty();
+    }
+    std::memcpy(&checksum, commit_payload.data(), sizeof(checksum));
+    return checksum == payload_checksum(prepared_payload);
+  }
+
   [[nodiscard]] static auto payload_size_is_plausible(std::ifstream &input,
                                                       uintmax_t wal_file_size,
                                                       uint64_t payload_size) -> bool {
@@ -487,6 +531,8 @@ class WriteAheadLog {
   fs::path path_;                     ///< Filesystem path of the WAL file.
   mutable std::mutex wal_mutex_;      ///< Guards appends, flushes, truncation and stream state.
   mutable std::ofstream wal_stream_;  ///< Lazily opened append stream for WAL frames.
+  mutable std::unordered_map<uint64_t, uint32_t>
+      prepared_checksums_;  ///< Payload checksums of prepared operations awaiting their COMMIT.
 };
 
 }  // namespace alaya::recovery
-- 
2.43.0


From c8c432ee9224e22251136c423448bf42839217a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 05/51] fix: thread pool waiters could sleep forever after the
 last task completed

Completion used notify_one although several threads may wait for it, and the
wait needed the counter to equal the requested number exactly.
---
 include/utils/thread_pool.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utils/thread_pool.hpp b/include/utils/thread_pool.hpp
index a78a3c7..55daeee 100644
--- a/include/utils/thread_pool.hpp
+++ b/include/utils/thread_pool.hpp
@@ -47,7 +47,7 @@ class ThreadPool {
           {
             std::lock_guard<std::mutex> lock(this->queue_mutex_);
             tasks_completed_.fetch_add(1);
-            condition_tasks_completed_.notify_one();
+            condition_tasks_completed_.notify_all();
           }
         }
       });
@@ -106,9 +106,9 @@ class ThreadPool {
    */
   void wait_until_all_tasks_completed(size_t task_num) {
     std::unique_lock<std::mutex> lock(queue_mutex_);
-    // Wait until the number of completed tasks matches the total number of tasks
+    // Wait until the number of completed tasks reaches the total number of tasks
     condition_tasks_completed_.wait(lock, [this, task_num]() -> bool {
-      return tasks_completed_.load() == task_num;
+      return tasks_completed_.load() >= task_num;
     });
   }
 
-- 
2.43.0


From 653ef316b0f970a27555424d38df483ea6c5f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 06/51] fix: coroutine scheduler lost late jobs and resumed
 rescheduled ones twice

A worker that found the queue empty before anything was scheduled quit, so jobs
scheduled after begin() could be lost, and a task that awaited
Scheduler::schedule() was both kept by its worker and put on the shared queue,
so two workers could resume it.
---
 include/executor/scheduler.hpp |  4 +++-
 include/executor/worker.hpp    | 37 ++++++++++++++++++++++++++++++----
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/include/executor/scheduler.hpp b/include/executor/scheduler.hpp
index 8cabc89..f169a18 100644
--- a/include/executor/scheduler.hpp
+++ b/include/executor/scheduler.hpp
@@ -70,7 +70,9 @@ class Scheduler {
      */
     template <typename Promise>
     auto await_suspend(std::coroutine_handle<Promise> awaiting_coroutine) noexcept -> bool {
-      scheduler_.resume(awaiting_coroutine);
+      if (!Worker::reschedule_current(scheduler_.task_queue_.get(), awaiting_coroutine)) {
+        scheduler_.resume(awaiting_coroutine);
+      }
       return true;
     }
 
diff --git a/include/executor/worker.hpp b/include/executor/worker.hpp
index 0bf09f5..63458db 100644
--- a/include/executor/worker.hpp
+++ b/include/executor/worker.hpp
@@ -11,6 +11,7 @@
 #include <memory>
 #include <thread>
 #include <tuple>
+#include <utility>
 #include <vector>
 
 #include "../utils/locks.hpp"
@@ -108,21 +109,45 @@ class Worker : public std::enable_shared_from_this<Worker> {
       if (handle == nullptr) {
         auto success = task_queue_->pop(handle);
         if (!success) {
-          if (total_finish_cnt_->load() == total_task_cnt_->load()) {
+          // Tasks may still be scheduled until join() is called, so an empty queue alone is not the
+          // end.
+          if (!active_.load() && total_finish_cnt_->load() == total_task_cnt_->load()) {
             break;
           }
           continue;
         }
       }
+      running_ = handle;
+      rescheduled_ = false;
+      current_ = this;
       handle.resume();
-      if (handle.done()) {
+      current_ = nullptr;
+      if (rescheduled_) {
+        // The task put itself back on the shared queue (co_await scheduler.schedule()). It is handed
+        // over only now that it is suspended, and this worker must not resume it any more.
+        task_queue_->push(std::exchange(handle, nullptr));
+      } else if (handle.done()) {
         handle = nullptr;
         total_finish_cnt_->fetch_add(1);
-      } else {
       }
     }
   }
 
+  /**
+   * @brief Marks the task that the calling worker thread is running to go back to the shared queue
+   *        once it is suspended.
+   *
+   * @return false if @p handle is not the task a worker of @p task_queue runs on this thread.
+   */
+  static auto reschedule_current(TaskQueue *task_queue, std::coroutine_handle<> handle) -> bool {
+    if (current_ == nullptr || current_->task_queue_ != task_queue ||
+        current_->running_ != handle) {
+      return false;
+    }
+    current_->rescheduled_ = true;
+    return true;
+  }
+
   /**
    * @brief Executes tasks on the current CPU until the task queue is empty.
    *
@@ -170,7 +195,11 @@ class Worker : public std::enable_shared_from_this<Worker> {
   WorkerID id_{0};   ///< Worker identifier
   CpuID cpu_id_{0};  ///< CPU identifier, represents the CPU on which the worker operates.
 
-  bool active_{true};  ///< Flag indicating whether the worker is active.
+  std::atomic<bool> active_{true};  ///< Cleared by join(): no more tasks will be scheduled.
+
+  static inline thread_local Worker *current_{nullptr};  ///< Worker running a task on this thread.
+  std::coroutine_handle<> running_{nullptr};               ///< Task this worker resumed last.
+  bool rescheduled_{false};  ///< The running task goes back to the queue when suspended.
 
   std::thread thread_;  ///< The thread associated with the worker.
 
-- 
2.43.0


From 1e673304e651c37f24f0e07858f9a3d36c536803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 07/51] fix: a failed slot allocation could lose the slot

---
 include/index/graph/diskann/slot_allocator.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/diskann/slot_allocator.hpp b/include/index/graph/diskann/slot_allocator.hpp
index 1926593..648f3b1 100644
--- a/include/index/graph/diskann/slot_allocator.hpp
+++ b/include/index/graph/diskann/slot_allocator.hpp
@@ -57,14 +57,14 @@ class SlotAllocator {
   /// Allocate a slot: reuse the most recently freed id (LIFO), else append a
   /// fresh id. The returned slot stays tombstoned until publish().
   uint32_t alloc() {
-    uint32_t id;
-    if (!free_list_.empty()) {
-      id = free_list_.back();
+    const bool reuse = !free_list_.empty();
+    const uint32_t id = reuse ? free_list_.back() : next_fresh_id_;
+    tombstone_.set(id);  // may throw; nothing has been taken yet
+    if (reuse) {
       free_list_.pop_back();
     } else {
-      id = next_fresh_id_++;
+      ++next_fresh_id_;
     }
-    tombstone_.set(id);
     return id;
   }
 
-- 
2.43.0


From 9ac7ba37365fd0de2a51e5ba9c2b2927c1de8cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 08/51] fix: saving slots or tombstones reported success when
 the last write failed

---
 include/index/graph/diskann/slot_allocator.hpp   | 1 +
 include/index/graph/diskann/tombstone_bitmap.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/index/graph/diskann/slot_allocator.hpp b/include/index/graph/diskann/slot_allocator.hpp
index 648f3b1..cbd57ad 100644
--- a/include/index/graph/diskann/slot_allocator.hpp
+++ b/include/index/graph/diskann/slot_allocator.hpp
@@ -103,6 +103,7 @@ class SlotAllocator {
                 static_cast<std::streamsize>(n_free * sizeof(uint32_t)));
     }
     tombstone_.serialize(out);
+    out.close();  // the last buffered bytes are written here
     if (!out) {
       throw std::runtime_error("SlotAllocator::save: write failed " + path);
     }
diff --git a/include/index/graph/diskann/tombstone_bitmap.hpp b/include/index/graph/diskann/tombstone_bitmap.hpp
index 9cf8904..1b6b174 100644
--- a/include/index/graph/diskann/tombstone_bitmap.hpp
+++ b/include/index/graph/diskann/tombstone_bitmap.hpp
@@ -221,6 +221,7 @@ class TombstoneBitmap {
       throw std::runtime_error("TombstoneBitmap::save: cannot open " + path);
     }
     serialize(out);
+    out.close();  // the last buffered bytes are written here
     if (!out) {
       throw std::runtime_error("TombstoneBitmap::save: write failed " + path);
     }
-- 
2.43.0


From e537a927c7ed95455967ffee6ef686bd21636d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 09/51] fix: upgrading a shared lock with other shared holders
 inside did not take it

---
 include/utils/locks.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/utils/locks.hpp b/include/utils/locks.hpp
index b4f68ba..287dde4 100644
--- a/include/utils/locks.hpp
+++ b/include/utils/locks.hpp
@@ -146,15 +146,16 @@ class SharedLock {
   // degrade an exclusive lock to a shared lock
   void degrade_lock() {
     int expected = -1;
-    [[maybe_unused]] bool ret = state_.compare_exchange_weak(expected, 1);
+    [[maybe_unused]] bool ret = state_.compare_exchange_strong(expected, 1);
     assert(ret);
   }
 
-  // upgrade a shared lock to an exclusive lock
+  // upgrade a shared lock to an exclusive lock, once the other shared holders have left
   void upgrade_lock() {
     int expected = 1;
-    [[maybe_unused]] bool ret = state_.compare_exchange_weak(expected, -1);
-    assert(ret);
+    while (!state_.compare_exchange_weak(expected, -1)) {
+      expected = 1;
+    }
   }
 
   auto get_state() -> int { return state_.load(); }
-- 
2.43.0


From 72b5f98db454171d1f7bafd45ebfb05e969445d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 10/51] fix: FileLock went on without the lock when it was
 interrupted or failed

---
 include/utils/locks.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/utils/locks.hpp b/include/utils/locks.hpp
index 287dde4..19aeab7 100644
--- a/include/utils/locks.hpp
+++ b/include/utils/locks.hpp
@@ -17,7 +17,9 @@
 
 #include <atomic>
 #include <cassert>
+#include <cerrno>
 #include <filesystem>  // NOLINT(build/c++17)
+#include <system_error>
 
 namespace alaya {
 /**
@@ -43,8 +45,16 @@ class FileLock {
     }
 #else
     fd_ = open(lock_file_.c_str(), O_CREAT | O_RDWR, 0666);
-    if (fd_ >= 0) {
-      flock(fd_, LOCK_EX);  // Acquire exclusive lock (blocking)
+    if (fd_ < 0) {
+      throw std::system_error(errno, std::generic_category(), "FileLock: open " + lock_file_.string());
+    }
+    while (flock(fd_, LOCK_EX) != 0) {  // Acquire exclusive lock (blocking)
+      if (errno == EINTR) {
+        continue;
+      }
+      const int saved = errno;
+      close(fd_);
+      throw std::system_error(saved, std::generic_category(), "FileLock: flock " + lock_file_.string());
     }
 #endif
   }
-- 
2.43.0


From 5f6cf31c3c5003dfa86d9babf0a953aa1323df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 11/51] fix: opening a disk collection must not make its
 unfinished creation fail

open() of a collection whose constructor has created .lock but not yet locked it
took the lock, so that the constructor failed and the directory stayed behind
unusable. A collection without a published manifest is now always reported as in
progress.
---
 include/index/disk/disk_collection.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index ea44831..3c6545d 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -774,20 +774,16 @@ class DiskCollection {
       }
     }
     // Caller-level "collection-in-progress" precondition: when `path/`
-    // exists but `.lock` is missing AND no published `collection_manifest.txt`
-    // is present, we are observing a constructor that has created `path/`
-    // but has not yet acquired its O_EXCL `.lock`. Throwing the documented
-    // dual-substring error here gives the caller a clear retry signal
-    // before we touch `_for_open`. Legacy collections (no `.lock` but a
-    // valid manifest) intentionally fall through — `_for_open` will create
-    // `.lock` for them.
+    // exists but no published `collection_manifest.txt` is present, we are
+    // observing a constructor that has not finished; it may have created its
+    // O_EXCL `.lock` without having flocked it yet, and taking the lock here
+    // would make it fail. Throwing the documented dual-substring error gives
+    // the caller a clear retry signal before we touch `_for_open`. Legacy
+    // collections (no `.lock` but a valid manifest) intentionally fall
+    // through — `_for_open` will create `.lock` for them.
     {
-      std::error_code ec_lock;
       std::error_code ec_manifest;
-      const bool lock_exists = std::filesystem::exists(path / ".lock", ec_lock);
-      const bool manifest_exists =
-          std::filesystem::exists(path / "collection_manifest.txt", ec_manifest);
-      if (!lock_exists && !manifest_exists) {
+      if (!std::filesystem::exists(path / "collection_manifest.txt", ec_manifest)) {
         throw std::runtime_error(
             "DiskCollection::open: target path is a collection-in-progress, not yet published: " +
             detail::weakly_canonical_lock_path_string(path / ".lock"));
-- 
2.43.0


From f902fe62bcfb83328fbb7603642d748cf6b79ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 12/51] fix: report an unreadable segments directory when a
 disk collection is opened

An error while reading the directory ended the orphan scan early, and the id of
an orphan segment was handed out again: every later flush failed.
---
 include/index/disk/disk_collection.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 3c6545d..c34180d 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1272,10 +1272,9 @@ class DiskCollection {
     }
     std::set<std::string> listed(manifest_.segment_ids.begin(), manifest_.segment_ids.end());
     uint64_t max_on_disk = 0;
-    for (const auto &entry : std::filesystem::directory_iterator(segments_dir, ec)) {
-      if (ec) {
-        break;
-      }
+    // Throws when the directory cannot be read: an incomplete scan could hand
+    // out the id of an orphan again.
+    for (const auto &entry : std::filesystem::directory_iterator(segments_dir)) {
       const auto name = entry.path().filename().string();
       if (name.starts_with(".tmp_")) {
         // Stale tmp from an aborted flush — log as partial and skip.
-- 
2.43.0


From cc60c0943169d3493d0fb34bc2516a719fba8224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 13/51] fix: batch_search joins its workers when a thread
 cannot be started

std::thread failing to start destroyed joinable threads and ended the process.
---
 include/index/disk/disk_collection.hpp | 53 +++++++++++++++-----------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index c34180d..faa689f 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1191,30 +1191,39 @@ class DiskCollection {
 
     std::vector<std::thread> workers;
     workers.reserve(worker_count);
-    for (uint32_t t = 0; t < worker_count; ++t) {
-      workers.emplace_back([&, this]() {
-        try {
-          while (!aborted.load(std::memory_order_relaxed)) {
-            const uint64_t i = next_query.fetch_add(1, std::memory_order_relaxed);
-            if (i >= n_queries) {
-              return;
-            }
-            auto hits = this->search(queries + i * dim, opts);
-            write_to_output(i, hits);
-          }
-        } catch (...) {
-          // Capture only the first exception; subsequent failures from
-          // sibling workers are intentionally discarded so the caller
-          // observes exactly one exception type matching the first
-          // failure (spec contract 8). Setting `aborted` lets sibling
-          // workers exit at the head of their next loop iteration.
-          std::lock_guard<std::mutex> lk(error_mutex);
-          if (!first_error) {
-            first_error = std::current_exception();
+    auto record_error = [&]() {
+      // Capture only the first exception; subsequent failures from
+      // sibling workers are intentionally discarded so the caller
+      // observes exactly one exception type matching the first
+      // failure (spec contract 8). Setting `aborted` lets sibling
+      // workers exit at the head of their next loop iteration.
+      std::lock_guard<std::mutex> lk(error_mutex);
+      if (!first_error) {
+        first_error = std::current_exception();
+      }
+      aborted.store(true, std::memory_order_relaxed);
+    };
+    auto worker = [&, this]() {
+      try {
+        while (!aborted.load(std::memory_order_relaxed)) {
+          const uint64_t i = next_query.fetch_add(1, std::memory_order_relaxed);
+          if (i >= n_queries) {
+            return;
           }
-          aborted.store(true, std::memory_order_relaxed);
+          auto hits = this->search(queries + i * dim, opts);
+          write_to_output(i, hits);
         }
-      });
+      } catch (...) {
+        record_error();
+      }
+    };
+    try {
+      for (uint32_t t = 0; t < worker_count; ++t) {
+        workers.emplace_back(worker);
+      }
+    } catch (...) {
+      // A thread could not be started: the ones that were must be joined.
+      record_error();
     }
     for (auto &w : workers) {
       w.join();
-- 
2.43.0


From f14c98c29279f12f85f5b4a6cd6d43823de3e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 14/51] fix: sync segment files and their directory before a
 segment is published

The flat builder did not sync the segment directory's entries and the LASER
importer not the artifacts it copied, so that a flushed segment could be
incomplete after a power loss.
---
 include/index/disk/disk_flat_builder.hpp      | 2 ++
 include/index/disk/laser_segment_importer.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/index/disk/disk_flat_builder.hpp b/include/index/disk/disk_flat_builder.hpp
index 4257e6e..a7a999c 100644
--- a/include/index/disk/disk_flat_builder.hpp
+++ b/include/index/disk/disk_flat_builder.hpp
@@ -252,6 +252,8 @@ class DiskFlatBuilder {
     manifest.vectors_file = "vectors.f32.bin";
     manifest.save(tmp_dir / "manifest.txt");
 
+    // The entries of the tmp directory must be durable before it is published.
+    detail::fsync_dir(tmp_dir);
     detail::rename_no_replace(tmp_dir, segment_dir);
     guard.disarm();
     // The segment is now published — mark builder closed BEFORE the parent
diff --git a/include/index/disk/laser_segment_importer.hpp b/include/index/disk/laser_segment_importer.hpp
index 3bd273d..e8f5048 100644
--- a/include/index/disk/laser_segment_importer.hpp
+++ b/include/index/disk/laser_segment_importer.hpp
@@ -172,6 +172,8 @@ inline auto copy_or_link_artifact(const std::filesystem::path &src,
     throw std::runtime_error("LaserSegmentImporter: artifact publish failed: " + src.string() +
                              " -> " + dst.string() + ": " + ec.message());
   }
+  // The segment is published by a rename; its contents must be durable first.
+  ::alaya::platform::sync_file_or_throw(dst);
 }
 
 inline auto make_tmp_dir(const std::filesystem::path &parent, const std::string &seg_basename)
-- 
2.43.0


From bc002f8bb4ccbd5c6399e1f0bb5c52012a057759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 15/51] fix: a flush or import of a disk collection is durable
 when it returns and unchanged when it fails

The directories holding the new segment and the collection itself were not
synced, or only with errors ignored; a failed flush left the segment id used up
so that the retry collided with its own orphan; and an allocation failing after
the manifest was published left memory and disk disagreeing.
---
 include/index/disk/disk_collection.hpp | 132 +++++++++++++++----------
 1 file changed, 79 insertions(+), 53 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index faa689f..14e2cbd 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -920,45 +920,27 @@ class DiskCollection {
     // the dispatch decision in one place. The factory call also constructs
     // the searcher, so a builder-side or open-side failure is reported from
     // a single throw site.
-    auto searcher = create_segment_from_pending(seg_dir,
-                                                manifest_,
-                                                pending_vectors_.data(),
-                                                pending_labels_.data(),
-                                                pending_labels_.size(),
-                                                vamana_params_);
+    std::shared_ptr<SegmentSearcher> searcher;
+    try {
+      searcher = create_segment_from_pending(seg_dir,
+                                             manifest_,
+                                             pending_vectors_.data(),
+                                             pending_labels_.data(),
+                                             pending_labels_.size(),
+                                             vamana_params_);
+    } catch (...) {
+      skip_segment_id_if_used(seg_id, seg_dir);
+      throw;
+    }
     // Segment is now on disk. Any subsequent failure in this function leaves
     // an orphan segment that will be classified as kind=complete on next open.
-    // Eagerly advance in-memory next_segment_id so a retried flush() uses a
-    // fresh id rather than colliding with the orphan.
-    manifest_.next_segment_id = seg_id + 1;
-
-    // Atomic rename of the collection manifest. Once this returns, the segment
-    // is officially listed on disk. If this throws, segment is still orphan.
-    auto new_manifest = manifest_;
-    new_manifest.segment_ids.push_back(seg_basename);
-    new_manifest.next_segment_id = seg_id + 1;
-    detail::publish_collection_manifest_atomic_only(path_, new_manifest);
-
-    // From this point on, the on-disk state is consistent. Commit in-memory
-    // state atomically. Pending is cleared LAST so any throw above leaves it
-    // intact for the caller (the fsync below is best-effort, not load-bearing).
-    manifest_ = std::move(new_manifest);
-    segments_.push_back(std::move(searcher));
-    segment_dirs_.push_back(seg_dir);
+    // Pending is cleared LAST so any throw above leaves it intact for the
+    // caller.
+    publish_segment(seg_id, seg_basename, seg_dir, std::move(searcher));
     pending_vectors_.clear();
     pending_labels_.clear();
     pending_vectors_.shrink_to_fit();
     pending_labels_.shrink_to_fit();
-
-    // Parent-dir fsync is a durability-only step. If it fails, the rename
-    // already happened — in-memory state is correct, the only impact is that
-    // the rename might not survive a power loss. Log and proceed.
-    try {
-      detail::fsync_dir(path_);
-    } catch (const std::exception &e) {
-      LOG_WARN("DiskCollection: collection_manifest fsync_dir failed (durability only): {}",
-               e.what());
-    }
   }
 
   void import_laser_segment(const std::filesystem::path &src_dir,
@@ -1005,28 +987,17 @@ class DiskCollection {
     const std::string seg_basename = detail::format_segment_id(seg_id);
     const auto seg_dir = path_ / "segments" / seg_basename;
 
-    auto searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
-
-    // Segment is now on disk. Match flush(): advance next_segment_id before
-    // manifest publication so a retry after manifest-publish failure uses a
-    // fresh id and leaves the published segment for orphan classification.
-    manifest_.next_segment_id = seg_id + 1;
-
-    auto new_manifest = manifest_;
-    new_manifest.segment_ids.push_back(seg_basename);
-    new_manifest.next_segment_id = seg_id + 1;
-    detail::publish_collection_manifest_atomic_only(path_, new_manifest);
-
-    manifest_ = std::move(new_manifest);
-    segments_.push_back(std::move(searcher));
-    segment_dirs_.push_back(seg_dir);
-
+    std::shared_ptr<SegmentSearcher> searcher;
     try {
-      detail::fsync_dir(path_);
-    } catch (const std::exception &e) {
-      LOG_WARN("DiskCollection: collection_manifest fsync_dir failed (durability only): {}",
-               e.what());
+      searcher = import_segment_from_artifacts(seg_dir, manifest_, src_dir, labels, n);
+    } catch (...) {
+      skip_segment_id_if_used(seg_id, seg_dir);
+      throw;
     }
+
+    // Segment is now on disk; a failure from here on leaves the published
+    // segment for orphan classification, as in flush().
+    publish_segment(seg_id, seg_basename, seg_dir, std::move(searcher));
   }
 
   auto search(const float *query, const DiskSearchOptions &opts) const
@@ -1254,6 +1225,61 @@ class DiskCollection {
  private:
   DiskCollection() = default;
 
+  // A builder that failed after its rename has used up the segment id; a retry
+  // must take a fresh one instead of colliding with the orphan.
+  void skip_segment_id_if_used(uint64_t seg_id, const std::filesystem::path &seg_dir) noexcept {
+    std::error_code ec;
+    if (std::filesystem::exists(seg_dir, ec) || ec) {
+      manifest_.next_segment_id = seg_id + 1;
+    }
+  }
+
+  // The collection's own directory entry. A parent that may be searched but
+  // not read cannot be synced by us; that alone does not fail the caller.
+  void sync_parent_dir() const {
+    const auto parent = path_ / "..";
+    try {
+      detail::fsync_dir(parent);
+    } catch (const std::exception &e) {
+#ifndef _WIN32
+      if (::access(parent.c_str(), R_OK) == 0 || errno != EACCES) {
+        throw;
+      }
+#endif
+      LOG_WARN("DiskCollection: parent fsync_dir failed (durability only): {}", e.what());
+    }
+  }
+
+  // List a segment that is on disk in the collection manifest and in memory.
+  // In-memory state changes only once the segment and the manifest naming it
+  // are durable, so a throw leaves the collection as it was; a retry then
+  // publishes a fresh segment under a manifest that does not list this one.
+  void publish_segment(uint64_t seg_id,
+                       const std::string &seg_basename,
+                       const std::filesystem::path &seg_dir,
+                       std::shared_ptr<SegmentSearcher> searcher) {
+    // Eagerly advance in-memory next_segment_id so a retry uses a fresh id
+    // rather than colliding with the orphan.
+    manifest_.next_segment_id = seg_id + 1;
+    auto new_manifest = manifest_;
+    new_manifest.segment_ids.push_back(seg_basename);
+    segments_.reserve(segments_.size() + 1);
+    segment_dirs_.reserve(segment_dirs_.size() + 1);
+    auto new_dir = seg_dir;
+
+    // The manifest must never survive a power loss that the segment it lists
+    // does not survive; and the caller is told of success only when neither
+    // the manifest nor the collection directory can be lost any more.
+    detail::fsync_dir(path_ / "segments" / ".");
+    detail::publish_collection_manifest_atomic_only(path_, new_manifest);
+    detail::fsync_dir(path_ / ".");
+    sync_parent_dir();
+
+    manifest_.segment_ids.swap(new_manifest.segment_ids);
+    segments_.push_back(std::move(searcher));
+    segment_dirs_.push_back(std::move(new_dir));
+  }
+
   void open_listed_segments() {
     segments_.reserve(manifest_.segment_ids.size());
     segment_dirs_.reserve(manifest_.segment_ids.size());
-- 
2.43.0


From d3560b5c204830227109d99b0e1c86263b0885e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 16/51] fix: HNSW level generator and entry point are read
 under a lock during parallel construction

---
 include/index/graph/hnsw/hnswlib.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/hnsw/hnswlib.hpp b/include/index/graph/hnsw/hnswlib.hpp
index ec32f04..b1b34a0 100644
--- a/include/index/graph/hnsw/hnswlib.hpp
+++ b/include/index/graph/hnsw/hnswlib.hpp
@@ -71,6 +71,7 @@ class HNSWImpl {
       label_lookup_;                            ///< Mapping of external id and internal id
   std::vector<ExternalID> tableint_lookup_;     ///< Mapping of internal id and external id
   std::default_random_engine level_generator_;  ///< Generator a level for each node.
+  std::mutex level_generator_lock_;             ///< lock for level_generator_
 
   HNSWImpl(std::shared_ptr<SpaceType> &s,
            size_t max_elements,
@@ -169,6 +170,7 @@ class HNSWImpl {
    */
   auto get_random_level(double reverse_size) -> size_t {
     std::uniform_real_distribution<double> distribution(0.0, 1.0);
+    std::unique_lock<std::mutex> lock(level_generator_lock_);
     double r = -log(distribution(level_generator_)) * reverse_size;
     return static_cast<size_t>(r);
   }
@@ -665,12 +667,12 @@ class HNSWImpl {
 
     std::unique_lock<std::mutex> templock(global_);
     int maxlevel_copy = maxlevel_;
+    // Read the entry point together with its level: a concurrent insert may replace both.
+    InternalID curr_node = enterpoint_node_;
     if (cur_level <= maxlevel_copy) {
       templock.unlock();
     }
 
-    InternalID curr_node = enterpoint_node_;
-
     if (cur_level != 0) {
       // Allocate storage space for upper-level graphs.
       link_lists_[internal_id] =
-- 
2.43.0


From 234d981b1f1dc47fb3b6549b2e3c4364ffb2986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 17/51] fix: Vamana construction keeps reverse edges added
 concurrently with a prune

---
 include/index/graph/vamana/vamana_builder.hpp | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/index/graph/vamana/vamana_builder.hpp b/include/index/graph/vamana/vamana_builder.hpp
index 3490a50..7ec0dd5 100644
--- a/include/index/graph/vamana/vamana_builder.hpp
+++ b/include/index/graph/vamana/vamana_builder.hpp
@@ -289,6 +289,28 @@ class VamanaBuilder {
                     });
   }
 
+  std::vector<uint32_t> snapshot_neighbors(uint32_t node) {
+    std::lock_guard<std::mutex> guard(locks_[node]);
+    return graph_[node];
+  }
+
+  // Replaces node's adjacency, which was computed from the snapshot `before`
+  // outside the lock. Reverse edges that other threads added in the meantime
+  // are kept: dropping them can leave their sources unreachable. Cleanup
+  // prunes a node that ends up above R.
+  void replace_neighbors(uint32_t node,
+                         const std::vector<uint32_t> &before,
+                         std::vector<uint32_t> neighbors) {
+    std::lock_guard<std::mutex> guard(locks_[node]);
+    for (uint32_t id : graph_[node]) {
+      if (std::find(before.begin(), before.end(), id) == before.end() &&
+          std::find(neighbors.begin(), neighbors.end(), id) == neighbors.end()) {
+        neighbors.push_back(id);
+      }
+    }
+    graph_[node] = std::move(neighbors);
+  }
+
   // For each newly minted forward edge n → des, attempt the reverse edge
   // des → n. Fast path (|des_pool| < 1.3R): append without pruning. Slow
   // path: copy des_pool + {n} under lock, prune outside lock, then
@@ -347,10 +369,7 @@ class VamanaBuilder {
                         [this](uint32_t a, uint32_t b) {
                           return l2_dist(a, b);
                         });
-        {
-          std::lock_guard<std::mutex> guard(locks_[des]);
-          graph_[des] = std::move(new_neighbors);
-        }
+        replace_neighbors(des, copy_of_neighbors, std::move(new_neighbors));
       }
     }
   }
@@ -455,12 +474,9 @@ class VamanaBuilder {
       uint32_t node = static_cast<uint32_t>(node_ctr);
       Scratch &s = scratches_[static_cast<size_t>(omp_get_thread_num())];
       std::vector<uint32_t> pruned_list;
+      const std::vector<uint32_t> before = snapshot_neighbors(node);
       search_for_point_and_prune(node, params_.L, pruned_list, s, alpha);
-
-      {
-        std::lock_guard<std::mutex> guard(locks_[node]);
-        graph_[node] = pruned_list;
-      }
+      replace_neighbors(node, before, pruned_list);
 
       inter_insert(node, pruned_list, s, alpha);
       log_progress_tick(link_done,
-- 
2.43.0


From da6e40ca25d5e93f2709a554bcb7071204737306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 18/51] fix: scalar record count is written in the same batch
 as the records it counts

---
 include/storage/rocksdb_storage.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 76cff7d..7237ce5 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -241,6 +241,10 @@ class RocksDBStorage {
     // Add field indexes for indexed fields
     add_field_indexes(batch, id, data);
 
+    if (!replacing_existing) {
+      put_count(batch, cached_count_.load() + 1);
+    }
+
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
       LOG_ERROR("Failed to insert ScalarData for ID {}: {}", id, status.ToString());
@@ -346,6 +350,10 @@ class RocksDBStorage {
       add_field_indexes(batch, record.id, record.data);
     }
 
+    if (inserted_count > 0) {
+      put_count(batch, cached_count_.load() + inserted_count);
+    }
+
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
       LOG_ERROR("Batch insert failed: {}", status.ToString());
@@ -380,6 +388,11 @@ class RocksDBStorage {
     // Remove field indexes
     remove_field_indexes(batch, id, data);
 
+    auto remaining = cached_count_.load();
+    if (remaining > 0) {
+      put_count(batch, remaining - 1);
+    }
+
     rocksdb::Status status = db_->Write(rocksdb::WriteOptions(), &batch);
     if (!status.ok()) {
       LOG_ERROR("Failed to remove ID {}: {}", id, status.ToString());
@@ -984,6 +997,14 @@ class RocksDBStorage {
     db_->Put(sync_options, count_key(), count_slice);
   }
 
+  /**
+   * @brief Persist the record count atomically with the records it counts, so that it is still
+   * right after a crash.
+   */
+  static void put_count(rocksdb::WriteBatch &batch, size_t count) {
+    batch.Put(count_key(), rocksdb::Slice(reinterpret_cast<const char *>(&count), sizeof(count)));
+  }
+
   static auto item_id_index_key(const std::string &item_id) -> std::string {
     return "i_" + item_id;
   }
-- 
2.43.0


From 1abe29e6ce1b55a4e9057c75e91a741a5668fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 19/51] fix: field index lookup no longer returns records whose
 longer string value starts with the one asked for

---
 include/storage/rocksdb_storage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 7237ce5..a529309 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -574,6 +574,10 @@ class RocksDBStorage {
       if (!key.starts_with(prefix)) {
         break;
       }
+      // Only the id follows the value: another '_' means that the indexed string is a longer one.
+      if (key.find('_', prefix.size()) != std::string::npos) {
+        continue;
+      }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
       ids.push_back(id);
     }
-- 
2.43.0


From d141091fe66fc316b81503c56fc8c37f007d1d1f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 20/51] fix: a search with fewer live records than topk no
 longer returns removed records

---
 include/executor/jobs/graph_search_job.hpp | 48 ++++++++++++++--------
 include/space/sq4_space.hpp                |  3 ++
 include/space/sq8_space.hpp                |  3 ++
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/executor/jobs/graph_search_job.hpp b/include/executor/jobs/graph_search_job.hpp
index 8b85bf4..fd9a950 100644
--- a/include/executor/jobs/graph_search_job.hpp
+++ b/include/executor/jobs/graph_search_job.hpp
@@ -138,6 +138,26 @@ struct GraphSearchJob {
     std::fill(distances + begin, distances + end, kInvalidDistance);
   }
 
+  /// Copies the closest live entries of the pool. Removed nodes, which the pool keeps as stepping
+  /// stones at an infinite distance, are no results.
+  static auto copy_live_results(const LinearPool<DistanceType, IDType> &pool,
+                                IDType *ids,
+                                uint32_t topk,
+                                DistanceType *distances = nullptr) -> uint32_t {
+    uint32_t count = 0;
+    for (uint32_t i = 0; i < static_cast<uint32_t>(pool.size()) && count < topk; ++i) {
+      if (pool.dist(i) == kInvalidDistance) {
+        continue;
+      }
+      ids[count] = pool.id(i);
+      if (distances != nullptr) {
+        distances[count] = pool.dist(i);
+      }
+      ++count;
+    }
+    return count;
+  }
+
   struct RerankCandidate {
     DistanceType distance_;
     IDType id_;
@@ -275,6 +295,9 @@ struct GraphSearchJob {
     auto candidate_count = static_cast<uint32_t>(src.size());
     for (uint32_t i = 0; i < candidate_count; ++i) {
       RerankCandidate candidate{dist_compute(src.id(i)), src.id(i)};
+      if (candidate.distance_ == kInvalidDistance) {
+        continue;  // removed
+      }
       if (heap.size() < topk) {
         heap.push_back(candidate);
         std::push_heap(heap.begin(), heap.end(), rerank_candidate_less);
@@ -323,6 +346,9 @@ struct GraphSearchJob {
     auto candidate_count = static_cast<uint32_t>(src.size());
     for (uint32_t i = 0; i < candidate_count; ++i) {
       RerankCandidate candidate{dist_compute(src.id(i)), src.id(i)};
+      if (candidate.distance_ == kInvalidDistance) {
+        continue;  // removed
+      }
       if (heap.size() < topk) {
         heap.push_back(candidate);
         std::push_heap(heap.begin(), heap.end(), rerank_candidate_less);
@@ -543,10 +569,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
-      for (uint32_t i = 0; i < result_count; ++i) {
-        ids[i] = pool.id(i);
-      }
+      auto result_count = copy_live_results(pool, ids, topk);
       fill_invalid_ids(ids, result_count, topk);
     }
 
@@ -610,11 +633,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, distances, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
-      for (uint32_t i = 0; i < result_count; ++i) {
-        ids[i] = pool.id(i);
-        distances[i] = pool.dist(i);
-      }
+      auto result_count = copy_live_results(pool, ids, topk, distances);
       fill_invalid_ids(ids, result_count, topk);
       fill_invalid_distances(distances, result_count, topk);
     }
@@ -675,10 +694,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
-      for (uint32_t i = 0; i < result_count; ++i) {
-        ids[i] = pool.id(i);
-      }
+      auto result_count = copy_live_results(pool, ids, topk);
       fill_invalid_ids(ids, result_count, topk);
     }
   }
@@ -741,11 +757,7 @@ struct GraphSearchJob {
     if constexpr (kNeedsRerank) {
       rerank(pool, ids, distances, topk, build_space_->get_query_computer(query));
     } else {
-      auto result_count = std::min<uint32_t>(static_cast<uint32_t>(pool.size()), topk);
-      for (uint32_t i = 0; i < result_count; ++i) {
-        ids[i] = pool.id(i);
-        distances[i] = pool.dist(i);
-      }
+      auto result_count = copy_live_results(pool, ids, topk, distances);
       fill_invalid_ids(ids, result_count, topk);
       fill_invalid_distances(distances, result_count, topk);
     }
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index ec50c9f..b0abd39 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -429,6 +429,9 @@ class SQ4Space {
      * @return The calculated distance
      */
     auto operator()(IDType u) const -> DistanceType {
+      if (!distance_space_.data_storage_.is_valid(u)) {
+        return std::numeric_limits<DistanceType>::max();
+      }
       return distance_space_.distance_calu_func_(query_,
                                                  distance_space_.get_data_by_id(u),
                                                  distance_space_.get_dim(),
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index b8808ba..7a209b8 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -429,6 +429,9 @@ class SQ8Space {
      * @return The calculated distance
      */
     auto operator()(IDType u) const -> DistanceType {
+      if (!distance_space_.data_storage_.is_valid(u)) {
+        return std::numeric_limits<DistanceType>::max();
+      }
       return distance_space_.distance_calu_func_(query_,
                                                  distance_space_.get_data_by_id(u),
                                                  distance_space_.get_dim(),
-- 
2.43.0


From 42fff41bdcf25d0a0f0b2de4417160752f95c397 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 21/51] fix: a save that could not write its files fails
 instead of being published as a snapshot

---
 include/index/graph/graph.hpp       |  3 +++
 include/space/rabitq_space.hpp      |  3 +++
 include/space/raw_space.hpp         |  3 +++
 include/space/sq4_space.hpp         |  3 +++
 include/space/sq8_space.hpp         |  3 +++
 include/storage/rocksdb_storage.hpp | 11 +++++++++--
 python/include/index.hpp            |  5 ++++-
 7 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/index/graph/graph.hpp b/include/index/graph/graph.hpp
index 3a9c0d2..147dcea 100644
--- a/include/index/graph/graph.hpp
+++ b/include/index/graph/graph.hpp
@@ -158,6 +158,7 @@ struct Graph {
     if (!writer.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    writer.exceptions(std::ios::badbit | std::ios::failbit);
 
     int nep = eps_.size();
     writer.write(reinterpret_cast<char *>(&nep), 4);
@@ -185,6 +186,7 @@ struct Graph {
     if (overlay_graph_) {
       overlay_graph_->save(writer);
     }
+    writer.close();
     LOG_INFO("Graph Saving done in {}\n", filename);
   }
 
@@ -200,6 +202,7 @@ struct Graph {
     if (!reader.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    reader.exceptions(std::ios::badbit | std::ios::failbit);
 
     int nep;
 
diff --git a/include/space/rabitq_space.hpp b/include/space/rabitq_space.hpp
index 5b6d5e4..581ce59 100644
--- a/include/space/rabitq_space.hpp
+++ b/include/space/rabitq_space.hpp
@@ -577,6 +577,7 @@ class RaBitQSpace {
     if (!writer.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    writer.exceptions(std::ios::badbit | std::ios::failbit);
 
     writer.write(reinterpret_cast<char *>(&metric_), sizeof(metric_));
     writer.write(reinterpret_cast<char *>(&dim_), sizeof(dim_));
@@ -595,6 +596,7 @@ class RaBitQSpace {
     storage_.save(writer);
 
     quantizer_->save(writer);
+    writer.close();
 
     LOG_INFO("RaBitQSpace is successfully saved to {}.", filename);
   }
@@ -605,6 +607,7 @@ class RaBitQSpace {
     if (!reader.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    reader.exceptions(std::ios::badbit | std::ios::failbit);
 
     reader.read(reinterpret_cast<char *>(&metric_), sizeof(metric_));
     reader.read(reinterpret_cast<char *>(&dim_), sizeof(dim_));
diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 5ac04a0..402c38d 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -371,6 +371,7 @@ class RawSpace {
     if (!reader.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    reader.exceptions(std::ios::badbit | std::ios::failbit);
 
     reader.read(reinterpret_cast<char *>(&metric_), sizeof(metric_));
     reader.read(reinterpret_cast<char *>(&data_size_), sizeof(data_size_));
@@ -391,6 +392,7 @@ class RawSpace {
     if (!writer.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    writer.exceptions(std::ios::badbit | std::ios::failbit);
 
     writer.write(reinterpret_cast<char *>(&metric_), sizeof(metric_));
     writer.write(reinterpret_cast<char *>(&data_size_), sizeof(data_size_));
@@ -403,6 +405,7 @@ class RawSpace {
     }
 
     data_storage_.save(writer);
+    writer.close();
     LOG_INFO("RawSpace is saved to {}", filename);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index b0abd39..bdf36b0 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -347,6 +347,7 @@ class SQ4Space {
     if (!reader.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    reader.exceptions(std::ios::badbit | std::ios::failbit);
 
     reader.read(reinterpret_cast<char *>(&metric_), sizeof(metric_));
     reader.read(reinterpret_cast<char *>(&data_size_), sizeof(data_size_));
@@ -374,6 +375,7 @@ class SQ4Space {
     if (!writer.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    writer.exceptions(std::ios::badbit | std::ios::failbit);
 
     writer.write(reinterpret_cast<char *>(&metric_), sizeof(metric_));
     writer.write(reinterpret_cast<char *>(&data_size_), sizeof(data_size_));
@@ -388,6 +390,7 @@ class SQ4Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.close();
     LOG_INFO("SQ4Space is saved to {}", filename);
   }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 7a209b8..cb6d5c0 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -346,6 +346,7 @@ class SQ8Space {
     if (!reader.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    reader.exceptions(std::ios::badbit | std::ios::failbit);
 
     reader.read(reinterpret_cast<char *>(&metric_), sizeof(metric_));
     reader.read(reinterpret_cast<char *>(&data_size_), sizeof(data_size_));
@@ -373,6 +374,7 @@ class SQ8Space {
     if (!writer.is_open()) {
       throw std::runtime_error("Cannot open file " + std::string(filename));
     }
+    writer.exceptions(std::ios::badbit | std::ios::failbit);
 
     writer.write(reinterpret_cast<char *>(&metric_), sizeof(metric_));
     writer.write(reinterpret_cast<char *>(&data_size_), sizeof(data_size_));
@@ -387,6 +389,7 @@ class SQ8Space {
 
     data_storage_.save(writer);
     quantizer_.save(writer);
+    writer.close();
     LOG_INFO("SQ8Space is saved to {}", filename);
   }
   /**
diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index a529309..fe23b1c 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -704,7 +704,12 @@ class RocksDBStorage {
     return stats;
   }
 
-  void save(const std::string &filepath) const {
+  /**
+   * @brief Write a checkpoint of the database to a new directory.
+   * @param filepath Directory to create
+   * @return false if the checkpoint could not be written
+   */
+  auto save(const std::string &filepath) const -> bool {
     if (!read_only_) {
       flush();
     }
@@ -714,14 +719,16 @@ class RocksDBStorage {
     std::unique_ptr<rocksdb::Checkpoint> checkpoint(checkpoint_raw);
     if (!status.ok()) {
       LOG_ERROR("Failed to create checkpoint: {}", status.ToString());
-      return;
+      return false;
     }
 
     status = checkpoint->CreateCheckpoint(filepath);
 
     if (!status.ok()) {
       LOG_ERROR("Failed to save checkpoint to {}: {}", filepath, status.ToString());
+      return false;
     }
+    return true;
   }
 
  private:
diff --git a/python/include/index.hpp b/python/include/index.hpp
index 587ac72..00e6964 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -280,7 +280,10 @@ class PyIndex : public BasePyIndex {
     std::string rocksdb_dir;
     if (auto *storage = recovery_scalar_storage(); storage != nullptr) {
       rocksdb_dir = "rocksdb";
-      storage->save((snapshot_dir / rocksdb_dir).string());
+      if (!storage->save((snapshot_dir / rocksdb_dir).string())) {
+        throw std::runtime_error("Failed to checkpoint scalar storage to " +
+                                 (snapshot_dir / rocksdb_dir).string());
+      }
     }
 
     alaya::recovery::SnapshotManifest manifest;
-- 
2.43.0


From 2645528885cf85620dc89a3fd7f4c04e54a4f74c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 22/51] fix: restoring the scalar storage from a snapshot fails
 loudly when the checkpoint is missing or stale files stay

---
 include/recovery/recovery_manager.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 860289a..98fa755 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -178,14 +178,12 @@ class RecoveryManager {
 
     auto source = manifest.rocksdb_path(snapshot_dir);
     if (source.empty() || !fs::exists(source)) {
-      LOG_WARN("recovery: snapshot rocksdb checkpoint missing at {}", source.string());
-      return;
+      throw std::runtime_error("recovery: snapshot rocksdb checkpoint missing at " +
+                               source.string());
     }
 
     fs::create_directories(active_rocksdb_path_.parent_path());
-    std::error_code ec;
-    fs::remove_all(active_rocksdb_path_, ec);
-    ec.clear();
+    fs::remove_all(active_rocksdb_path_);
     copy_directory_recursive(source, active_rocksdb_path_);
     LOG_INFO("recovery: restored rocksdb checkpoint from {}", source.string());
   }
-- 
2.43.0


From 8f043d0eabeadaee1e294e9c53c2dbc8c0d64965 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 23/51] fix: a scalar record that cannot be removed or inserted
 fails the operation and leaves the counters in step

---
 include/executor/jobs/graph_update_job.hpp |  8 ++++----
 include/space/raw_space.hpp                | 12 +++++++++---
 include/space/sq4_space.hpp                | 10 +++++-----
 include/space/sq8_space.hpp                | 10 +++++-----
 4 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index 4cc9033..d04880a 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -116,6 +116,10 @@ class GraphUpdateJob {
   }
 
   auto remove(IDType node_id) -> void {
+    space_->remove(node_id);
+    if constexpr (!std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
+      build_space_->remove(node_id);
+    }
     auto nbrs = graph_->edges(node_id);
     for (IDType i = 0; i < graph_->max_nbrs_; i++) {
       auto nbr = nbrs[i];
@@ -126,10 +130,6 @@ class GraphUpdateJob {
     }
     job_context_->removed_vertices_.insert(node_id);
     graph_->remove(node_id);
-    if constexpr (!std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
-      build_space_->remove(node_id);
-    }
-    space_->remove(node_id);
   }
 
   /**
diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 402c38d..8ccad1d 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -163,10 +163,15 @@ class RawSpace {
    */
   auto insert(const DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
     auto id = data_storage_.insert(data);
+    if (id == static_cast<IDType>(-1)) {
+      return static_cast<IDType>(-1);
+    }
     item_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
         if (!scalar_storage_->insert(id, *scalar_data)) {
+          data_storage_.remove(id);
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
@@ -180,12 +185,13 @@ class RawSpace {
    * @param id the id of the data point to delete
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
     if constexpr (has_scalar_data) {
-      if (scalar_storage_ != nullptr) {
-        scalar_storage_->remove(id);
+      if (scalar_storage_ != nullptr && !scalar_storage_->remove(id) &&
+          scalar_storage_->is_valid(id)) {
+        throw std::runtime_error("Failed to remove ScalarData");
       }
     }
+    delete_cnt_++;
     return data_storage_.remove(id);
   }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index bdf36b0..9e8ff1f 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -291,7 +291,7 @@ class SQ4Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
@@ -308,14 +308,14 @@ class SQ4Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
-
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
-      if (scalar_storage_ != nullptr) {
-        scalar_storage_->remove(id);
+      if (scalar_storage_ != nullptr && !scalar_storage_->remove(id) &&
+          scalar_storage_->is_valid(id)) {
+        throw std::runtime_error("Failed to remove ScalarData");
       }
     }
+    delete_cnt_++;
 
     return data_storage_.remove(id);
   }
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index cb6d5c0..4ddf4f0 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -290,7 +290,7 @@ class SQ8Space {
         if (!scalar_storage_->insert(id, *scalar_data)) {
           LOG_ERROR("Failed to insert ScalarData for ID {}", id);
           data_storage_.remove(id);
-          item_cnt_--;
+          delete_cnt_++;
           throw std::runtime_error("Failed to insert ScalarData");
         }
       }
@@ -307,14 +307,14 @@ class SQ8Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
-    delete_cnt_++;
-
     // Remove ScalarData if present
     if constexpr (has_scalar_data) {  // NOLINT
-      if (scalar_storage_ != nullptr) {
-        scalar_storage_->remove(id);
+      if (scalar_storage_ != nullptr && !scalar_storage_->remove(id) &&
+          scalar_storage_->is_valid(id)) {
+        throw std::runtime_error("Failed to remove ScalarData");
       }
     }
+    delete_cnt_++;
 
     return data_storage_.remove(id);
   }
-- 
2.43.0


From 2a45744ed098b789257688e7a1dbee30b5a6d54e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 24/51] fix: upsert into a full index keeps the record it
 cannot replace

---
 python/include/index.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 00e6964..0c14d7d 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -386,6 +386,9 @@ class PyIndex : public BasePyIndex {
       if (!contains(scalar_data.item_id)) {
         return insert_nondurable(data, ef, &scalar_data);
       }
+      if (search_space_->get_data_num() >= search_space_->get_capacity()) {
+        return static_cast<IDType>(-1);  // no room for the new record: keep the old one
+      }
 
       auto [old_internal_id, old_scalar] = search_space_->get_scalar_data(scalar_data.item_id);
       auto old_vector = copy_vector_by_internal_id(old_internal_id);
-- 
2.43.0


From 42cae2c990a9c50739dd20a4e05715755e7da1f4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 25/51] fix: an index that a failed mutation left different
 from its recovery log takes no further mutations

---
 python/include/index.hpp | 115 +++++++++++++++++++++++++++------------
 1 file changed, 79 insertions(+), 36 deletions(-)

diff --git a/python/include/index.hpp b/python/include/index.hpp
index 0c14d7d..a9add0b 100644
--- a/python/include/index.hpp
+++ b/python/include/index.hpp
@@ -8,6 +8,7 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/pytypes.h>
 #include <algorithm>
+#include <array>
 #include <cassert>
 #include <cmath>
 #include <concepts>
@@ -22,6 +23,7 @@
 #include <mutex>
 #include <optional>
 #include <queue>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <thread>
@@ -252,6 +254,54 @@ class PyIndex : public BasePyIndex {
     }
   }
 
+  auto ensure_matches_recovery_log() const -> void {
+    if (recovery_diverged_) {
+      throw std::runtime_error(
+          "A failed operation left the index different from its recovery log; load the index again "
+          "before changing or saving it");
+    }
+  }
+
+  /// Counters that tell whether a mutation which failed has changed the index all the same.
+  [[nodiscard]] auto mutation_mark() const -> std::array<uint64_t, 3> {
+    if constexpr (!is_rabitq_space_v<SearchSpaceType>) {
+      if (update_job_ != nullptr) {
+        return {static_cast<uint64_t>(search_space_->get_data_num()),
+                static_cast<uint64_t>(build_space_->get_data_num()),
+                static_cast<uint64_t>(build_space_->get_avl_data_num())};
+      }
+    }
+    return {};  // takes no incremental updates
+  }
+
+  /**
+   * @brief Apply a mutation between its prepare and commit records in the recovery log.
+   *
+   * A mutation that failed without a trace is simply not committed. If it changed the index, the
+   * index no longer matches what the log rebuilds (even a half-inserted record takes up an internal
+   * ID and so shifts the following ones): nothing more may be logged or saved from this state.
+   */
+  template <typename MutateFn>
+  auto apply_logged(alaya::recovery::MutationType type,
+                    std::vector<char> payload,
+                    const MutateFn &mutate) -> IDType {
+    ensure_matches_recovery_log();
+    auto op_id = next_recovery_op_id_++;
+    recovery_manager_->append_prepare({op_id, type, std::move(payload)});
+
+    auto mark = mutation_mark();
+    try {
+      auto result = mutate();
+      recovery_manager_->append_commit(op_id, type);
+      last_committed_recovery_op_id_ = op_id;
+      last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
+      return result;
+    } catch (...) {
+      recovery_diverged_ = mutation_mark() != mark;
+      throw;
+    }
+  }
+
   auto checkpoint_recovery_snapshot(std::string_view reason) -> void {
     if (recovery_manager_ == nullptr || search_space_ == nullptr) {
       return;
@@ -512,6 +562,7 @@ class PyIndex : public BasePyIndex {
   auto save(const std::string &index_path,
             const std::string &data_path = std::string(),
             const std::string &quant_path = std::string()) -> void override {
+    ensure_matches_recovery_log();
     save_state(index_path, data_path, quant_path);
     checkpoint_recovery_snapshot("manual_save");
   }
@@ -525,6 +576,7 @@ class PyIndex : public BasePyIndex {
     uint64_t applied_through = 0;
 
     if (recovery_manager_ != nullptr) {
+      recovery_diverged_ = true;
       auto manifest = recovery_manager_->current_snapshot();
       auto snapshot_dir = recovery_manager_->current_snapshot_dir();
       if (manifest.has_value() && snapshot_dir.has_value()) {
@@ -559,6 +611,7 @@ class PyIndex : public BasePyIndex {
       if (replayed > 0 || !current_snapshot.has_value()) {
         checkpoint_recovery_snapshot(replayed > 0 ? "post_recovery" : "post_load");
       }
+      recovery_diverged_ = false;
     }
     LOG_DEBUG("creator task generator success");
   }
@@ -583,6 +636,8 @@ class PyIndex : public BasePyIndex {
                                                ? params_.materialized_view_build_threads_
                                                : std::max<uint32_t>(1, num_threads);
 
+    recovery_diverged_ = recovery_manager_ != nullptr;
+
     // Build ScalarData array if provided (only for search_space_)
     std::vector<ScalarData> scalar_data_vec;
     bool has_scalar = !item_ids.is_none();
@@ -691,6 +746,7 @@ class PyIndex : public BasePyIndex {
                                        materialized_view_ef_construction,
                                        materialized_view_build_threads);
     checkpoint_recovery_snapshot("post_fit");
+    recovery_diverged_ = false;
     LOG_DEBUG("Create task generator successfully!");
   }
 
@@ -709,16 +765,11 @@ class PyIndex : public BasePyIndex {
     // and append_commit, replay may cause duplicates. Consider idempotent
     // replay (check if item_id already exists) or a unified WAL.
     if (recovery_manager_ != nullptr) {
-      auto op_id = next_recovery_op_id_++;
-      recovery_manager_->append_prepare(
-          {op_id,
-           alaya::recovery::MutationType::kInsert,
-           encode_insert_like_payload(insert_data_ptr, ef, scalar_data)});
-      auto inserted_id = insert_nondurable(insert_data_ptr, ef, &scalar_data);
-      recovery_manager_->append_commit(op_id, alaya::recovery::MutationType::kInsert);
-      last_committed_recovery_op_id_ = op_id;
-      last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
-      return inserted_id;
+      return apply_logged(alaya::recovery::MutationType::kInsert,
+                          encode_insert_like_payload(insert_data_ptr, ef, scalar_data),
+                          [&] {
+                            return insert_nondurable(insert_data_ptr, ef, &scalar_data);
+                          });
     }
 
     auto inserted_id = insert_nondurable(insert_data_ptr, ef, &scalar_data);
@@ -735,16 +786,11 @@ class PyIndex : public BasePyIndex {
     ScalarData scalar_data{item_id, document, meta_map};
 
     if (recovery_manager_ != nullptr) {
-      auto op_id = next_recovery_op_id_++;
-      recovery_manager_->append_prepare(
-          {op_id,
-           alaya::recovery::MutationType::kUpsert,
-           encode_insert_like_payload(insert_data_ptr, ef, scalar_data)});
-      auto upserted_id = upsert_nondurable(insert_data_ptr, ef, scalar_data);
-      recovery_manager_->append_commit(op_id, alaya::recovery::MutationType::kUpsert);
-      last_committed_recovery_op_id_ = op_id;
-      last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
-      return upserted_id;
+      return apply_logged(alaya::recovery::MutationType::kUpsert,
+                          encode_insert_like_payload(insert_data_ptr, ef, scalar_data),
+                          [&] {
+                            return upsert_nondurable(insert_data_ptr, ef, scalar_data);
+                          });
     }
 
     return upsert_nondurable(insert_data_ptr, ef, scalar_data);
@@ -752,14 +798,12 @@ class PyIndex : public BasePyIndex {
 
   auto remove(IDType id) -> void {
     if (recovery_manager_ != nullptr) {
-      auto op_id = next_recovery_op_id_++;
-      recovery_manager_->append_prepare({op_id,
-                                         alaya::recovery::MutationType::kRemoveByInternalId,
-                                         encode_remove_internal_payload(id)});
-      remove_nondurable(id);
-      recovery_manager_->append_commit(op_id, alaya::recovery::MutationType::kRemoveByInternalId);
-      last_committed_recovery_op_id_ = op_id;
-      last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
+      apply_logged(alaya::recovery::MutationType::kRemoveByInternalId,
+                   encode_remove_internal_payload(id),
+                   [&] {
+                     remove_nondurable(id);
+                     return id;
+                   });
       return;
     }
     remove_nondurable(id);
@@ -767,14 +811,12 @@ class PyIndex : public BasePyIndex {
 
   auto remove(const std::string &item_id) -> void {
     if (recovery_manager_ != nullptr) {
-      auto op_id = next_recovery_op_id_++;
-      recovery_manager_->append_prepare({op_id,
-                                         alaya::recovery::MutationType::kRemoveByItemId,
-                                         encode_remove_item_payload(item_id)});
-      remove_nondurable(item_id);
-      recovery_manager_->append_commit(op_id, alaya::recovery::MutationType::kRemoveByItemId);
-      last_committed_recovery_op_id_ = op_id;
-      last_seen_recovery_op_id_ = std::max(last_seen_recovery_op_id_, op_id);
+      apply_logged(alaya::recovery::MutationType::kRemoveByItemId,
+                   encode_remove_item_payload(item_id),
+                   [&] {
+                     remove_nondurable(item_id);
+                     return IDType{};
+                   });
       return;
     }
     remove_nondurable(item_id);
@@ -1368,6 +1410,7 @@ class PyIndex : public BasePyIndex {
   MaterializedViewManagerType materialized_view_manager_;
   std::unique_ptr<alaya::recovery::RecoveryManager> recovery_manager_{nullptr};
   uint64_t next_recovery_op_id_{1};
+  bool recovery_diverged_{false};  ///< The index does not match its recovery log
   uint64_t last_committed_recovery_op_id_{0};
   uint64_t last_seen_recovery_op_id_{0};
 };
-- 
2.43.0


From da5b80a620371efc994d24d247ba506353870fae Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 26/51] fix: the entry of a new collection directory survives a
 power failure

---
 include/recovery/recovery_manager.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 98fa755..71bbd47 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -97,7 +97,11 @@ class RecoveryManager {
     sync_tree(snapshot_dir);
     platform::sync_directory_or_throw(snapshots_dir_);
     platform::sync_directory_or_throw(root_dir_);
-    platform::sync_directory_or_throw(fs::canonical(root_dir_).parent_path());
+    auto collection_dir = fs::canonical(root_dir_).parent_path();
+    platform::sync_directory_or_throw(collection_dir);
+    // The collection directory may be new as well. It is not ours to fail over: the directory that
+    // holds it may be unreadable to this process.
+    platform::sync_directory(collection_dir.parent_path());
     auto manifest_path = snapshot_dir / "manifest.txt";
     write_text_atomically(manifest_path, manifest.serialize());
     write_text_atomically(current_path_, manifest.snapshot_id_ + "\n");
-- 
2.43.0


From 8b813725ec2078a75a118aa55fadadb901806e35 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 27/51] fix: memory that cannot be allocated for a query is
 reported, not written to

---
 include/space/raw_space.hpp |  4 ++--
 include/space/sq4_space.hpp |  4 ++--
 include/space/sq8_space.hpp |  4 ++--
 include/utils/platform.hpp  | 10 ++++++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 8ccad1d..0b7ed0b 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -430,14 +430,14 @@ class RawSpace {
     QueryComputer(const RawSpace &distance_space, const DataType *query)
         : distance_space_(distance_space) {
       auto aligned_size = math::round_up_pow2(distance_space_.data_size_, kAlignment);
-      query_ = static_cast<DataType *>(alaya_aligned_alloc_impl(aligned_size, kAlignment));
+      query_ = static_cast<DataType *>(alaya_aligned_alloc_or_throw(aligned_size, kAlignment));
       std::memcpy(query_, query, distance_space.data_size_);
     }
 
     QueryComputer(const RawSpace &distance_space, const IDType id)
         : distance_space_(distance_space) {
       size_t aligned_size = math::round_up_pow2(distance_space_.data_size_, kAlignment);
-      query_ = static_cast<DataType *>(alaya_aligned_alloc_impl(aligned_size, kAlignment));
+      query_ = static_cast<DataType *>(alaya_aligned_alloc_or_throw(aligned_size, kAlignment));
       std::memcpy(query_, distance_space.get_data_by_id(id), distance_space.data_size_);
     }
 
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index 9e8ff1f..f14b378 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -406,14 +406,14 @@ class SQ4Space {
     QueryComputer(const SQ4Space &distance_space, const DataType *query)
         : distance_space_(distance_space) {
       size_t aligned_size = math::round_up_pow2(distance_space_.get_data_size(), 64);
-      query_ = static_cast<uint8_t *>(alaya_aligned_alloc_impl(aligned_size, 64));
+      query_ = static_cast<uint8_t *>(alaya_aligned_alloc_or_throw(aligned_size, 64));
       distance_space.get_quantizer().encode(query, query_);
     }
 
     QueryComputer(const SQ4Space &distance_space, const IDType id)
         : distance_space_(distance_space) {
       size_t aligned_size = math::round_up_pow2(distance_space_.get_data_size(), 64);
-      query_ = static_cast<uint8_t *>(alaya_aligned_alloc_impl(aligned_size, 64));
+      query_ = static_cast<uint8_t *>(alaya_aligned_alloc_or_throw(aligned_size, 64));
       std::memcpy(query_, distance_space_.get_data_by_id(id), distance_space_.get_data_size());
     }
 
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index 4ddf4f0..035a4b8 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -407,14 +407,14 @@ class SQ8Space {
     QueryComputer(const SQ8Space &distance_space, const DataType *query)
         : distance_space_(distance_space) {
       size_t aligned_size = math::round_up_pow2(distance_space_.get_data_size(), 64);
-      query_ = static_cast<uint8_t *>(alaya_aligned_alloc_impl(aligned_size, 64));
+      query_ = static_cast<uint8_t *>(alaya_aligned_alloc_or_throw(aligned_size, 64));
       distance_space.get_quantizer().encode(query, query_);
     }
 
     QueryComputer(const SQ8Space &distance_space, const IDType id)
         : distance_space_(distance_space) {
       size_t aligned_size = math::round_up_pow2(distance_space_.get_data_size(), 64);
-      query_ = static_cast<uint8_t *>(alaya_aligned_alloc_impl(aligned_size, 64));
+      query_ = static_cast<uint8_t *>(alaya_aligned_alloc_or_throw(aligned_size, 64));
       std::memcpy(query_, distance_space_.get_data_by_id(id), distance_space_.get_data_size());
     }
     /**
diff --git a/include/utils/platform.hpp b/include/utils/platform.hpp
index c752603..83cdfe0 100644
--- a/include/utils/platform.hpp
+++ b/include/utils/platform.hpp
@@ -9,6 +9,7 @@
 // ============================================================================
 
 #include <cstdlib>
+#include <new>
 #include <type_traits>
 #if defined(_WIN32)
   #define ALAYA_OS_WINDOWS
@@ -112,6 +113,15 @@ inline auto alaya_aligned_alloc_impl(size_t size, size_t alignment) -> void * {
 #endif
 }
 
+/// As alaya_aligned_alloc_impl, for callers that write to the memory without checking it.
+inline auto alaya_aligned_alloc_or_throw(size_t size, size_t alignment) -> void * {
+  void *ptr = alaya_aligned_alloc_impl(size, alignment);
+  if (ptr == nullptr && size != 0 && alignment != 0) {
+    throw std::bad_alloc();
+  }
+  return ptr;
+}
+
 inline void alaya_aligned_free_impl(void *ptr) {
   // Handle nullptr gracefully
   if (ptr == nullptr) {
-- 
2.43.0


From d77b085ab0f3da7629af7a3942d855cb8c20ccff Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 28/51] fix: records inserted after removals are reachable, and
 an insert that fails half-way is taken back

---
 include/executor/jobs/graph_update_job.hpp | 110 ++++++++++++++-------
 1 file changed, 73 insertions(+), 37 deletions(-)

diff --git a/include/executor/jobs/graph_update_job.hpp b/include/executor/jobs/graph_update_job.hpp
index d04880a..33565af 100644
--- a/include/executor/jobs/graph_update_job.hpp
+++ b/include/executor/jobs/graph_update_job.hpp
@@ -4,17 +4,21 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <limits>
 #include <memory>
 #include <stdexcept>
+#include <string>
 #include <type_traits>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 #include "../../index/graph/graph.hpp"
 #include "../../space/space_concepts.hpp"
+#include "../../utils/log.hpp"
 #include "../../utils/scalar_data.hpp"
 #include "./graph_search_job.hpp"
 #include "./job_context.hpp"
@@ -66,13 +70,18 @@ class GraphUpdateJob {
       throw;
     }
 
-    for (IDType i = 0; i < search_size; i++) {
-      auto invert_node = search_results[i];
+    try {
+      for (IDType i = 0; i < search_size; i++) {
+        auto invert_node = search_results[i];
 
-      if (invert_node != static_cast<IDType>(-1)) {
-        job_context_->inserted_edges_[invert_node].push_back(node_id);
-        *(ids + i) = invert_node;
+        if (invert_node != static_cast<IDType>(-1)) {
+          job_context_->inserted_edges_[invert_node].push_back(node_id);
+          *(ids + i) = invert_node;
+        }
       }
+    } catch (...) {
+      withdraw(node_id);
+      throw;
     }
     return node_id;
   }
@@ -101,34 +110,46 @@ class GraphUpdateJob {
       throw;
     }
 
-    for (IDType i = 0; i < search_size; i++) {
-      auto invert_node = search_results[i];
+    try {
+      for (IDType i = 0; i < search_size; i++) {
+        auto invert_node = search_results[i];
 
-      if (invert_node != static_cast<IDType>(-1)) {
-        job_context_->inserted_edges_[invert_node].push_back(node_id);
+        if (invert_node != static_cast<IDType>(-1)) {
+          job_context_->inserted_edges_[invert_node].push_back(node_id);
+        }
       }
-    }
-    for (const auto &[k, v] : job_context_->inserted_edges_) {
-      update(k);
+      for (const auto &[k, v] : job_context_->inserted_edges_) {
+        update(k);
+      }
+    } catch (...) {
+      withdraw(node_id);
+      throw;
     }
     job_context_->inserted_edges_.clear();
     return node_id;
   }
 
   auto remove(IDType node_id) -> void {
-    space_->remove(node_id);
-    if constexpr (!std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
-      build_space_->remove(node_id);
+    // What can fail for lack of memory comes first.
+    std::vector<IDType> nbrs;
+    for (IDType i = 0; i < graph_->max_nbrs_ && graph_->at(node_id, i) != invalid_id(); i++) {
+      nbrs.push_back(graph_->at(node_id, i));
     }
-    auto nbrs = graph_->edges(node_id);
-    for (IDType i = 0; i < graph_->max_nbrs_; i++) {
-      auto nbr = nbrs[i];
-      if (nbr == static_cast<IDType>(-1)) {
-        break;
+    const bool newly_removed = job_context_->removed_vertices_.insert(node_id).second;
+    try {
+      auto &kept = job_context_->removed_node_nbrs_[node_id];
+      space_->remove(node_id);
+      kept = std::move(nbrs);
+    } catch (...) {
+      if (newly_removed) {
+        job_context_->removed_vertices_.erase(node_id);
+        job_context_->removed_node_nbrs_.erase(node_id);
       }
-      job_context_->removed_node_nbrs_[node_id].push_back(nbr);
+      throw;
+    }
+    if constexpr (!std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
+      build_space_->remove(node_id);
     }
-    job_context_->removed_vertices_.insert(node_id);
     graph_->remove(node_id);
   }
 
@@ -139,20 +160,11 @@ class GraphUpdateJob {
    */
   auto remove(const std::string &item_id) -> void {
     if constexpr (DistanceSpaceType::has_scalar_data) {
-      auto internal_id = space_->remove(item_id);  // Space handles lookup and deletion
-      if constexpr (!std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
-        build_space_->remove(internal_id);
+      auto internal_id = space_->get_scalar_storage()->find_by_item_id(item_id);
+      if (!internal_id.has_value()) {
+        throw std::runtime_error("Item ID not found: " + item_id);
       }
-      auto nbrs = graph_->edges(internal_id);
-      for (IDType i = 0; i < graph_->max_nbrs_; i++) {
-        auto nbr = nbrs[i];
-        if (nbr == static_cast<IDType>(-1)) {
-          break;
-        }
-        job_context_->removed_node_nbrs_[internal_id].push_back(nbr);
-      }
-      job_context_->removed_vertices_.insert(internal_id);
-      graph_->remove(internal_id);
+      remove(internal_id.value());
     } else {
       throw std::runtime_error("Remove by item_id is not supported for spaces without scalar data");
     }
@@ -185,16 +197,40 @@ class GraphUpdateJob {
       pool.insert(nbr, dist);
     }
 
-    std::vector<IDType> updated_edges(graph_->max_nbrs_);
+    std::vector<IDType> updated_edges(graph_->max_nbrs_, invalid_id());
     for (IDType i = 0; i < graph_->max_nbrs_ && i < pool.size(); i++) {
       updated_edges[i] = pool.id(i);
     }
-    graph_->update(node_id, updated_edges.data());
+    if (graph_->update(node_id, updated_edges.data()) == invalid_id()) {
+      // A removed node stays a stepping stone of every search, perhaps the only one to a new record.
+      std::copy(updated_edges.begin(), updated_edges.end(), graph_->edges(node_id));
+      auto removed = job_context_->removed_node_nbrs_.find(node_id);
+      if (removed != job_context_->removed_node_nbrs_.end()) {
+        updated_edges.resize(std::min<size_t>(updated_edges.size(), pool.size()));
+        removed->second = std::move(updated_edges);
+      }
+    }
   }
 
  private:
   static constexpr auto invalid_id() -> IDType { return std::numeric_limits<IDType>::max(); }
 
+  /// Takes back an insert that failed after its record was stored.
+  void withdraw(IDType node_id) noexcept {
+    for (auto &[k, inserted] : job_context_->inserted_edges_) {
+      std::erase(inserted, node_id);
+    }
+    try {
+      space_->remove(node_id);
+    } catch (const std::exception &e) {
+      LOG_ERROR("Failed to take back record {}: {}", node_id, e.what());
+    }
+    if constexpr (!std::is_same_v<DistanceSpaceType, BuildSpaceType>) {
+      build_space_->remove(node_id);
+    }
+    graph_->remove(node_id);
+  }
+
   void validate_scalar_insertable(const ScalarData *scalar_data) const {
     if constexpr (DistanceSpaceType::has_scalar_data) {
       if (scalar_data == nullptr || scalar_data->item_id.empty()) {
-- 
2.43.0


From 130fa7cc66543f31d843ea6eec3b938169c96ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:11 +0000
Subject: [PATCH 29/51] fix: file readers complete every accepted read once,
 report failed blocking reads and shut down with reads in flight

---
 .../graph/laser/utils/aligned_file_reader.hpp | 243 ++++++++++++++----
 .../laser/utils/threadpool_file_reader.hpp    | 133 +++++++---
 2 files changed, 283 insertions(+), 93 deletions(-)

diff --git a/include/index/graph/laser/utils/aligned_file_reader.hpp b/include/index/graph/laser/utils/aligned_file_reader.hpp
index 75bf21c..f1c2369 100644
--- a/include/index/graph/laser/utils/aligned_file_reader.hpp
+++ b/include/index/graph/laser/utils/aligned_file_reader.hpp
@@ -22,8 +22,10 @@
 #include <atomic>
 #include <cassert>
 #include <cerrno>
+#include <chrono>
 #include <cstdint>
 #include <cstring>
+#include <deque>
 #include <vector>
 
 #include <cstdio>
@@ -50,6 +52,9 @@
   #endif
 #endif
 
+#if defined(ALAYA_LASER_USE_LIBAIO) || defined(ALAYA_LASER_USE_THREADPOOL)
+  #include <sys/stat.h>
+#endif
 #if defined(ALAYA_LASER_USE_LIBAIO)
   #include <fcntl.h>
   #include <libaio.h>
@@ -110,6 +115,29 @@ struct AlignedReadEvent {
   int64_t result = 0;
 };
 
+#if defined(ALAYA_LASER_USE_LIBAIO) || defined(ALAYA_LASER_USE_THREADPOOL)
+/// Throws unless a blocking read of @p req from @p fd that returned @p result
+/// delivered all the bytes the file has in that range.
+inline void check_sync_read(int fd, const AlignedRead &req, int64_t result, const char *who) {
+  if (result < 0) {
+    throw std::runtime_error(std::string(who) + ": read of " + std::to_string(req.len) +
+                             " bytes at offset " + std::to_string(req.offset) +
+                             " failed: " + ::strerror(static_cast<int>(-result)));
+  }
+  if (static_cast<uint64_t>(result) == req.len) {
+    return;
+  }
+  struct stat st {};
+  if (::fstat(fd, &st) == 0 &&
+      req.offset + static_cast<uint64_t>(result) >= static_cast<uint64_t>(st.st_size)) {
+    return;  // end of file
+  }
+  throw std::runtime_error(std::string(who) + ": read of " + std::to_string(req.len) +
+                           " bytes at offset " + std::to_string(req.offset) + " returned only " +
+                           std::to_string(result));
+}
+#endif
+
 class AlignedFileReader {
  protected:
   std::map<std::thread::id, IOContext> ctx_map_;
@@ -165,6 +193,13 @@ class LinuxAlignedFileReader : public AlignedFileReader {
   uint64_t file_sz_;
   int file_desc_;
   io_context_t bad_ctx_ = nullptr;
+  /// Completions of asynchronous reads that arrived while a blocking or partly
+  /// rejected batch was collected (under ctx_mut_).
+  std::map<io_context_t, std::deque<AlignedReadEvent>> stray_;
+  std::atomic<bool> have_stray_{false};
+
+  void keep_stray(io_context_t ctx, const std::deque<AlignedReadEvent> &events);
+  void take_stray(io_context_t ctx, size_t max, std::vector<AlignedReadEvent> &out);
 
  public:
   LinuxAlignedFileReader();
@@ -220,10 +255,65 @@ inline void io_getevents_exact(io_context_t ctx, io_event_t *evts, int64_t want,
   }
 }
 
+/// io_submit that carries on with the rest when the kernel takes only part of a
+/// batch, is interrupted or is short of resources for a moment. Returns the number
+/// of requests taken, and in @p error why the rest was not (0 when all were).
+inline int64_t io_submit_all(io_context_t ctx, iocb_t **cbs, int64_t want, int64_t &error) {
+  constexpr int kBusyRetries = 1000;
+  int64_t done = 0;
+  int busy = 0;
+  error = 0;
+  while (done < want) {
+    const int64_t ret = io_submit(ctx, want - done, cbs + done);
+    if (ret > 0) {
+      done += ret;
+      busy = 0;
+    } else if (ret == -EINTR) {
+      continue;
+    } else if ((ret == -EAGAIN || ret == 0) && busy < kBusyRetries) {
+      ++busy;
+      std::this_thread::sleep_for(std::chrono::microseconds(100));
+    } else {
+      error = ret == 0 ? -EAGAIN : ret;
+      break;
+    }
+  }
+  return done;
+}
+
+/// Waits for the first @p n requests of the batch @p cb, which the kernel has taken,
+/// and sets their entries of @p results. Completions of other batches on @p ctx go
+/// to @p others.
+inline void io_collect_batch(io_context_t ctx,
+                             const std::vector<iocb_t> &cb,
+                             int64_t n,
+                             std::vector<int64_t> &results,
+                             std::deque<AlignedReadEvent> &others) {
+  std::vector<io_event_t> evts(static_cast<size_t>(n));
+  std::vector<char> seen(static_cast<size_t>(n), 0);
+  results.assign(static_cast<size_t>(n), 0);
+  while (n > 0) {
+    const int64_t got = n;
+    io_getevents_exact(ctx, evts.data(), got, "LinuxAlignedFileReader");
+    for (int64_t i = 0; i < got; ++i) {
+      const auto &evt = evts[static_cast<size_t>(i)];
+      const size_t pos = evt.obj >= cb.data() ? static_cast<size_t>(evt.obj - cb.data()) : cb.size();
+      if (pos < seen.size() && seen[pos] == 0 && cb[pos].data == evt.data) {
+        seen[pos] = 1;
+        results[pos] = static_cast<int64_t>(evt.res);
+        --n;
+      } else {
+        others.push_back({static_cast<uint64_t>(reinterpret_cast<uintptr_t>(evt.data)),
+                          static_cast<int64_t>(evt.res)});
+      }
+    }
+  }
+}
+
 inline void execute_io(io_context_t ctx,
                        int fd,
                        std::vector<AlignedRead> &read_reqs,
-                       uint64_t n_retries = 0) {
+                       std::deque<AlignedReadEvent> &others) {
   #ifdef DEBUG
   for (auto &req : read_reqs) {
     assert(IS_ALIGNED(req.len, 512));
@@ -238,7 +328,6 @@ inline void execute_io(io_context_t ctx,
     uint64_t n_ops = std::min(static_cast<uint64_t>(read_reqs.size()) - (iter * MAX_EVENTS),
                               static_cast<uint64_t>(MAX_EVENTS));
     std::vector<iocb_t *> cbs(n_ops, nullptr);
-    std::vector<io_event_t> evts(n_ops);
     std::vector<struct iocb> cb(n_ops);
     for (uint64_t j = 0; j < n_ops; j++) {
       io_prep_pread(cb.data() + j,
@@ -251,23 +340,22 @@ inline void execute_io(io_context_t ctx,
     // initialize `cbs` using `cb` array
     for (uint64_t i = 0; i < n_ops; i++) {
       cbs[i] = cb.data() + i;
+      cb[i].data = cb.data() + i;
     }
 
-    uint64_t n_tries = 0;
-    while (n_tries <= n_retries) {
-      // issue reads
-      int64_t ret = io_submit(ctx, static_cast<int64_t>(n_ops), cbs.data());
-      // if requests didn't get accepted
-      if (ret != static_cast<int64_t>(n_ops)) {
-        throw std::runtime_error("LinuxAlignedFileReader: io_submit() failed; returned " +
-                                 std::to_string(ret) + ", expected=" + std::to_string(n_ops) +
-                                 ", errno=" + std::to_string(errno) + "=" +
-                                 ::strerror(static_cast<int>(-ret)));
-      } else {
-        // wait for the whole batch (drains partial deliveries after interrupts)
-        io_getevents_exact(ctx, evts.data(), static_cast<int64_t>(n_ops), "LinuxAlignedFileReader");
-        break;
-      }
+    int64_t error = 0;
+    const int64_t taken = io_submit_all(ctx, cbs.data(), static_cast<int64_t>(n_ops), error);
+    // wait for what was taken (drains partial deliveries after interrupts), also
+    // when the rest was rejected: nothing may write to the buffers afterwards
+    std::vector<int64_t> results;
+    io_collect_batch(ctx, cb, taken, results, others);
+    if (taken != static_cast<int64_t>(n_ops)) {
+      throw std::runtime_error("LinuxAlignedFileReader: io_submit() failed; accepted " +
+                               std::to_string(taken) + ", expected=" + std::to_string(n_ops) +
+                               ", error=" + ::strerror(static_cast<int>(-error)));
+    }
+    for (uint64_t i = 0; i < n_ops; i++) {
+      check_sync_read(fd, read_reqs[i + iter * MAX_EVENTS], results[i], "LinuxAlignedFileReader");
     }
   }
 }
@@ -275,21 +363,9 @@ inline void execute_io(io_context_t ctx,
 inline LinuxAlignedFileReader::LinuxAlignedFileReader() { this->file_desc_ = -1; }
 
 inline LinuxAlignedFileReader::~LinuxAlignedFileReader() {
-  int64_t ret;
-  // check to make sure file_desc is closed
-  ret = ::fcntl(this->file_desc_, F_GETFD);
-  if (ret == -1) {
-    if (errno != EBADF) {
-      std::cerr << "close() not called" << std::endl;
-      // close file desc
-      ret = ::close(this->file_desc_);
-      // error checks
-      if (ret == -1) {
-        std::cerr << "close() failed; returned " << ret << ", errno=" << errno << ":"
-                  << ::strerror(errno) << std::endl;
-      }
-    }
-  }
+  // contexts first: destroying one waits for the reads still in flight on it
+  LinuxAlignedFileReader::deregister_all_threads();
+  LinuxAlignedFileReader::close();
 }
 
 inline io_context_t &LinuxAlignedFileReader::get_ctx() {
@@ -312,15 +388,10 @@ inline void LinuxAlignedFileReader::register_thread() {
   io_context_t ctx = nullptr;
   int ret = io_setup(MAX_EVENTS, &ctx);
   if (ret != 0) {
-    lk.unlock();
-    assert(errno != EAGAIN);
-    assert(errno != ENOMEM);
-    std::cerr << "io_setup() failed; returned " << ret << ", errno=" << errno << ":"
-              << ::strerror(errno) << std::endl;
-  } else {
-    ctx_map_[my_id] = ctx;
+    throw std::runtime_error("LinuxAlignedFileReader::register_thread: io_setup() failed; returned " +
+                             std::to_string(ret) + " (" + ::strerror(-ret) + ")");
   }
-  lk.unlock();
+  ctx_map_[my_id] = ctx;
 }
 
 inline void LinuxAlignedFileReader::deregister_thread() {
@@ -333,6 +404,7 @@ inline void LinuxAlignedFileReader::deregister_thread() {
   io_destroy(ctx);
   lk.lock();
   ctx_map_.erase(my_id);
+  stray_.erase(ctx);
   lk.unlock();
 }
 
@@ -343,6 +415,7 @@ inline void LinuxAlignedFileReader::deregister_all_threads() {
     io_destroy(ctx);
   }
   ctx_map_.clear();
+  stray_.clear();
 }
 
 inline void LinuxAlignedFileReader::open(const std::string &fname) {
@@ -358,7 +431,10 @@ inline void LinuxAlignedFileReader::open(const std::string &fname) {
   // O_RDONLY: Open file for reading only (index files are read-only during search).
   int flags = O_DIRECT | O_RDONLY;
   this->file_desc_ = ::open(fname.c_str(), flags);
-  assert(this->file_desc_ != -1);
+  if (this->file_desc_ == -1) {
+    throw std::runtime_error("LinuxAlignedFileReader::open: open() failed for " + fname +
+                             ", errno=" + std::to_string(errno) + "=" + ::strerror(errno));
+  }
 }
 
 inline void LinuxAlignedFileReader::close() {
@@ -377,7 +453,14 @@ inline void LinuxAlignedFileReader::read(std::vector<AlignedRead> &read_reqs,
     std::cout << "Async currently not supported in linux." << std::endl;
   }
   assert(this->file_desc_ != -1);
-  execute_io(ctx, this->file_desc_, read_reqs);
+  std::deque<AlignedReadEvent> others;
+  try {
+    execute_io(ctx, this->file_desc_, read_reqs, others);
+  } catch (...) {
+    keep_stray(ctx, others);
+    throw;
+  }
+  keep_stray(ctx, others);
 }
 
 /**
@@ -402,7 +485,6 @@ inline int LinuxAlignedFileReader::submit_reqs(std::vector<AlignedRead> &read_re
   }
   size_t n_ops = read_reqs.size();
   std::vector<struct iocb *> cbs(n_ops, nullptr);
-  std::vector<io_event> evts(n_ops);
   std::vector<struct iocb> cb(n_ops);
   for (size_t j = 0; j < n_ops; j++) {
     io_prep_pread(cb.data() + j,
@@ -418,28 +500,70 @@ inline int LinuxAlignedFileReader::submit_reqs(std::vector<AlignedRead> &read_re
     }
   }
 
-  int ret = io_submit(ctx, static_cast<int64_t>(n_ops), cbs.data());
-  if (ret != static_cast<int>(n_ops)) {
-    throw std::runtime_error("LinuxAlignedFileReader::submit_reqs: io_submit() failed; returned " +
-                             std::to_string(ret) + ", expected=" + std::to_string(n_ops) +
-                             ", errno=" + std::to_string(errno) + "=" + ::strerror(-ret));
+  int64_t error = 0;
+  const int64_t taken = io_submit_all(ctx, cbs.data(), static_cast<int64_t>(n_ops), error);
+  if (taken != static_cast<int64_t>(n_ops)) {
+    // none of a rejected batch may write to its buffers or complete later
+    std::vector<int64_t> results;
+    std::deque<AlignedReadEvent> others;
+    io_collect_batch(ctx, cb, taken, results, others);
+    keep_stray(ctx, others);
+    throw std::runtime_error("LinuxAlignedFileReader::submit_reqs: io_submit() failed; accepted " +
+                             std::to_string(taken) + ", expected=" + std::to_string(n_ops) +
+                             ", error=" + ::strerror(static_cast<int>(-error)));
   }
   return static_cast<int>(n_ops);
 }
 
+inline void LinuxAlignedFileReader::keep_stray(io_context_t ctx,
+                                               const std::deque<AlignedReadEvent> &events) {
+  if (events.empty()) {
+    return;
+  }
+  std::lock_guard<std::mutex> lk(ctx_mut_);
+  auto &stray = stray_[ctx];
+  stray.insert(stray.end(), events.begin(), events.end());
+  have_stray_.store(true, std::memory_order_release);
+}
+
+inline void LinuxAlignedFileReader::take_stray(io_context_t ctx,
+                                               size_t max,
+                                               std::vector<AlignedReadEvent> &out) {
+  if (!have_stray_.load(std::memory_order_acquire)) {
+    return;
+  }
+  std::lock_guard<std::mutex> lk(ctx_mut_);
+  auto it = stray_.find(ctx);
+  if (it == stray_.end()) {
+    return;
+  }
+  while (out.size() < max && !it->second.empty()) {
+    out.push_back(it->second.front());
+    it->second.pop_front();
+  }
+  if (it->second.empty()) {
+    stray_.erase(it);
+    have_stray_.store(!stray_.empty(), std::memory_order_release);
+  }
+}
+
 inline int LinuxAlignedFileReader::get_events(IOContext &ctx,
                                               int n_ops,
                                               std::vector<AlignedReadEvent> &out) {
-  std::vector<io_event> evts(n_ops);
+  out.clear();
+  if (n_ops <= 0) {
+    return 0;
+  }
+  out.reserve(static_cast<size_t>(n_ops));
+  take_stray(ctx, static_cast<size_t>(n_ops), out);
+  std::vector<io_event> evts(static_cast<size_t>(n_ops) - out.size());
   io_getevents_exact(ctx,
                      evts.data(),
-                     static_cast<int64_t>(n_ops),
+                     static_cast<int64_t>(evts.size()),
                      "LinuxAlignedFileReader::get_events");
-  out.clear();
-  out.reserve(static_cast<size_t>(n_ops));
-  for (int64_t i = 0; i < n_ops; ++i) {
-    out.push_back({static_cast<uint64_t>(reinterpret_cast<uintptr_t>(evts[i].data)),
-                   static_cast<int64_t>(evts[i].res)});
+  for (const auto &evt : evts) {
+    out.push_back({static_cast<uint64_t>(reinterpret_cast<uintptr_t>(evt.data)),
+                   static_cast<int64_t>(evt.res)});
   }
   return n_ops;
 }
@@ -452,6 +576,11 @@ inline int LinuxAlignedFileReader::poll_events(IOContext &ctx,
     return 0;
   }
 
+  take_stray(ctx, static_cast<size_t>(max_events), out);
+  max_events -= static_cast<int>(out.size());
+  if (max_events == 0) {
+    return static_cast<int>(out.size());
+  }
   std::vector<io_event> evts(static_cast<size_t>(max_events));
   int64_t ret = 0;
   do {  // non-blocking poll; -EINTR just means "try again"
@@ -463,12 +592,12 @@ inline int LinuxAlignedFileReader::poll_events(IOContext &ctx,
         std::to_string(ret) + ", errno=" + std::to_string(-ret));
   }
 
-  out.reserve(static_cast<size_t>(ret));
+  out.reserve(out.size() + static_cast<size_t>(ret));
   for (int64_t i = 0; i < ret; ++i) {
     out.push_back({static_cast<uint64_t>(reinterpret_cast<uintptr_t>(evts[i].data)),
                    static_cast<int64_t>(evts[i].res)});
   }
-  return static_cast<int>(ret);
+  return static_cast<int>(out.size());
 }
 
 #endif  // defined(ALAYA_LASER_USE_LIBAIO)
diff --git a/include/index/graph/laser/utils/threadpool_file_reader.hpp b/include/index/graph/laser/utils/threadpool_file_reader.hpp
index d49e446..230e64b 100644
--- a/include/index/graph/laser/utils/threadpool_file_reader.hpp
+++ b/include/index/graph/laser/utils/threadpool_file_reader.hpp
@@ -23,6 +23,7 @@
 #include <limits>
 #include <memory>
 #include <mutex>
+#include <new>
 #include <stdexcept>
 #include <string>
 #include <thread>
@@ -39,6 +40,8 @@ struct ThreadPoolContext {
   std::mutex completion_mutex;
   std::condition_variable completion_cv;
   std::atomic<bool> active{true};
+  /// Submitted reads a worker has not finished with yet (under completion_mutex).
+  size_t pending = 0;
 };
 
 class ThreadPoolFileReader : public AlignedFileReader {
@@ -59,6 +62,7 @@ class ThreadPoolFileReader : public AlignedFileReader {
   static size_t worker_count_from_env();
   void worker_loop();
   void notify_completion(ThreadPoolContext *ctx, const AlignedReadEvent &event);
+  static void retire(ThreadPoolContext &ctx);
 
  public:
   ThreadPoolFileReader() = default;
@@ -123,31 +127,43 @@ inline void ThreadPoolFileReader::register_thread() {
   ctx_map_[my_id] = raw_ctx;
 }
 
+/// Stops deliveries to @p ctx and waits for the reads the workers hold for it:
+/// afterwards neither the context nor the buffers of its reads are touched.
+inline void ThreadPoolFileReader::retire(ThreadPoolContext &ctx) {
+  std::unique_lock<std::mutex> lk(ctx.completion_mutex);
+  ctx.active.store(false, std::memory_order_release);
+  ctx.completion_cv.notify_all();
+  ctx.completion_cv.wait(lk, [&ctx]() {
+    return ctx.pending == 0;
+  });
+}
+
 inline void ThreadPoolFileReader::deregister_thread() {
   const auto my_id = std::this_thread::get_id();
-  std::unique_lock<std::mutex> lk(ctx_mut_);
-  auto ctx_it = ctx_map_.find(my_id);
-  if (ctx_it == ctx_map_.end()) {
-    return;
-  }
-  if (ctx_it->second != nullptr) {
-    ctx_it->second->active.store(false, std::memory_order_release);
-    ctx_it->second->completion_cv.notify_all();
+  std::unique_ptr<ThreadPoolContext> ctx;
+  {
+    std::unique_lock<std::mutex> lk(ctx_mut_);
+    auto owned_it = owned_contexts_.find(my_id);
+    if (owned_it == owned_contexts_.end()) {
+      return;
+    }
+    ctx = std::move(owned_it->second);
+    owned_contexts_.erase(owned_it);
+    ctx_map_.erase(my_id);
   }
-  ctx_map_.erase(ctx_it);
-  owned_contexts_.erase(my_id);
+  retire(*ctx);
 }
 
 inline void ThreadPoolFileReader::deregister_all_threads() {
-  std::unique_lock<std::mutex> lk(ctx_mut_);
-  for (auto &entry : ctx_map_) {
-    if (entry.second != nullptr) {
-      entry.second->active.store(false, std::memory_order_release);
-      entry.second->completion_cv.notify_all();
-    }
+  std::map<std::thread::id, std::unique_ptr<ThreadPoolContext>> contexts;
+  {
+    std::unique_lock<std::mutex> lk(ctx_mut_);
+    contexts.swap(owned_contexts_);
+    ctx_map_.clear();
+  }
+  for (auto &entry : contexts) {
+    retire(*entry.second);
   }
-  ctx_map_.clear();
-  owned_contexts_.clear();
 }
 
 inline void ThreadPoolFileReader::open(const std::string &fname) {
@@ -161,11 +177,16 @@ inline void ThreadPoolFileReader::open(const std::string &fname) {
 
   stop_.store(false, std::memory_order_release);
   const size_t worker_count = worker_count_from_env();
-  workers_.reserve(worker_count);
-  for (size_t i = 0; i < worker_count; ++i) {
-    workers_.emplace_back([this]() {
-      worker_loop();
-    });
+  try {
+    workers_.reserve(worker_count);
+    for (size_t i = 0; i < worker_count; ++i) {
+      workers_.emplace_back([this]() {
+        worker_loop();
+      });
+    }
+  } catch (...) {
+    close();  // a worker that cannot be started must not leave joinable ones behind
+    throw;
   }
 }
 
@@ -181,6 +202,8 @@ inline void ThreadPoolFileReader::close() {
 
   SubmittedRead ignored;
   while (submitted_reads_.try_dequeue(ignored)) {
+    std::lock_guard<std::mutex> lk(ignored.ctx->completion_mutex);
+    --ignored.ctx->pending;
   }
 
   if (file_desc_ != -1) {
@@ -197,17 +220,34 @@ inline void ThreadPoolFileReader::close() {
 inline void ThreadPoolFileReader::read(std::vector<AlignedRead> &read_reqs,
                                        IOContext &ctx,
                                        bool async) {
-  const int submitted = submit_reqs(read_reqs, ctx);
   if (async) {
+    submit_reqs(read_reqs, ctx);
     return;
   }
 
-  std::vector<AlignedReadEvent> ignored;
-  const int completed = get_events(ctx, submitted, ignored);
+  if (ctx == nullptr) {
+    throw std::runtime_error("ThreadPoolFileReader::read: invalid thread context");
+  }
+  // A context of its own keeps these completions apart from those of the caller's
+  // asynchronous reads; they arrive in any order, so tag them with their position.
+  ThreadPoolContext own;
+  IOContext own_ctx = &own;
+  std::vector<AlignedRead> tagged(read_reqs);
+  for (size_t i = 0; i < tagged.size(); ++i) {
+    tagged[i].id = i;
+  }
+  std::vector<AlignedReadEvent> events;
+  events.reserve(tagged.size());
+  const int submitted = submit_reqs(tagged, own_ctx);
+  const int completed = get_events(own_ctx, submitted, events);
+  retire(own);
   if (completed != submitted) {
     throw std::runtime_error("ThreadPoolFileReader::read: completed " + std::to_string(completed) +
                              " reads, expected " + std::to_string(submitted));
   }
+  for (const auto &event : events) {
+    check_sync_read(file_desc_, read_reqs[event.id], event.result, "ThreadPoolFileReader::read");
+  }
 }
 
 inline int ThreadPoolFileReader::submit_reqs(std::vector<AlignedRead> &read_reqs, IOContext &ctx) {
@@ -223,8 +263,22 @@ inline int ThreadPoolFileReader::submit_reqs(std::vector<AlignedRead> &read_reqs
                              " exceeds MAX_EVENTS=" + std::to_string(MAX_EVENTS));
   }
 
+  std::vector<SubmittedRead> batch;
+  batch.reserve(read_reqs.size());
   for (const auto &read : read_reqs) {
-    submitted_reads_.enqueue(SubmittedRead{read, ctx});
+    batch.push_back(SubmittedRead{read, ctx});
+  }
+  if (batch.empty()) {
+    return 0;
+  }
+  {
+    std::lock_guard<std::mutex> lk(ctx->completion_mutex);
+    ctx->pending += batch.size();
+  }
+  if (!submitted_reads_.enqueue_bulk(batch.data(), batch.size())) {
+    std::lock_guard<std::mutex> lk(ctx->completion_mutex);
+    ctx->pending -= batch.size();
+    throw std::bad_alloc();
   }
   submit_cv_.notify_all();
   return static_cast<int>(read_reqs.size());
@@ -280,11 +334,16 @@ inline void ThreadPoolFileReader::worker_loop() {
     SubmittedRead submitted;
     if (submitted_reads_.try_dequeue(submitted)) {
       int64_t result = 0;
-      errno = 0;
-      const ssize_t bytes_read = ::pread(file_desc_,
-                                         submitted.read.buf,
-                                         static_cast<size_t>(submitted.read.len),
-                                         static_cast<off_t>(submitted.read.offset));
+      ssize_t bytes_read = 0;
+      if (submitted.ctx->active.load(std::memory_order_acquire)) {
+        do {
+          errno = 0;
+          bytes_read = ::pread(file_desc_,
+                               submitted.read.buf,
+                               static_cast<size_t>(submitted.read.len),
+                               static_cast<off_t>(submitted.read.offset));
+        } while (bytes_read == -1 && errno == EINTR);
+      }
       if (bytes_read == -1) {
         result = -static_cast<int64_t>(errno);
       } else {
@@ -305,9 +364,11 @@ inline void ThreadPoolFileReader::worker_loop() {
 
 inline void ThreadPoolFileReader::notify_completion(ThreadPoolContext *ctx,
                                                     const AlignedReadEvent &event) {
-  if (ctx == nullptr || !ctx->active.load(std::memory_order_acquire)) {
-    return;
+  // The context may be freed as soon as its last pending read is accounted for.
+  std::lock_guard<std::mutex> lk(ctx->completion_mutex);
+  if (ctx->active.load(std::memory_order_acquire)) {
+    ctx->completions.enqueue(event);
   }
-  ctx->completions.enqueue(event);
-  ctx->completion_cv.notify_one();
+  --ctx->pending;
+  ctx->completion_cv.notify_all();
 }
-- 
2.43.0


From d1476edf7aca951c993ec7e50811edeae6786c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 30/51] fix: io_uring engine withdraws requests it reports as
 not submitted, retries interrupted calls and completes each read once

---
 include/storage/io/io_engine.hpp       |  5 +-
 include/storage/io/io_uring_engine.hpp | 88 ++++++++++++++++++--------
 2 files changed, 66 insertions(+), 27 deletions(-)

diff --git a/include/storage/io/io_engine.hpp b/include/storage/io/io_engine.hpp
index 4e4fd17..8691f1b 100644
--- a/include/storage/io/io_engine.hpp
+++ b/include/storage/io/io_engine.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <cerrno>
 #include <cstddef>
 #include <cstdint>
 #include <memory>
@@ -216,7 +217,7 @@ class SyncEngine final : public IOEngine {
     size_t completed = 0;
     for (auto &req : requests) {
       auto bytes = pread(fd, req.buffer_, req.size_, req.offset_);
-      req.result_ = static_cast<int32_t>(bytes);
+      req.result_ = static_cast<int32_t>(bytes < 0 ? -errno : bytes);
       if (bytes > 0) {
         ++completed;
       }
@@ -228,7 +229,7 @@ class SyncEngine final : public IOEngine {
     size_t completed = 0;
     for (auto &req : requests) {
       auto bytes = pwrite(fd, req.buffer_, req.size_, req.offset_);
-      req.result_ = static_cast<int32_t>(bytes);
+      req.result_ = static_cast<int32_t>(bytes < 0 ? -errno : bytes);
       if (bytes > 0) {
         ++completed;
       }
diff --git a/include/storage/io/io_uring_engine.hpp b/include/storage/io/io_uring_engine.hpp
index 8b3f968..3411771 100644
--- a/include/storage/io/io_uring_engine.hpp
+++ b/include/storage/io/io_uring_engine.hpp
@@ -13,7 +13,9 @@
 
   #include <liburing.h>
 
+  #include <algorithm>
   #include <cerrno>
+  #include <chrono>
   #include <cstring>
   #include <stdexcept>
 
@@ -83,6 +85,9 @@ class IOUringEngine final : public IOEngine {
       while (completed < min_complete) {
         struct io_uring_cqe *cqe = nullptr;
         int ret = io_uring_wait_cqe(ring, &cqe);
+        if (ret == -EINTR) {
+          continue;
+        }
         if (ret < 0) {
           LOG_ERROR("io_uring_wait_cqe failed: {}", strerror(-ret));
           break;
@@ -94,15 +99,24 @@ class IOUringEngine final : public IOEngine {
       }
     } else {
       // Non-blocking or timed wait
-      struct __kernel_timespec ts = {.tv_sec = timeout_ms / 1000,
-                                     .tv_nsec = (timeout_ms % 1000) * 1000000L};
+      const auto deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout_ms);
 
       while (completed < min_complete) {
+        const int64_t left_ns =
+            std::max<int64_t>(0,
+                              std::chrono::duration_cast<std::chrono::nanoseconds>(
+                                  deadline - std::chrono::steady_clock::now())
+                                  .count());
+        struct __kernel_timespec ts = {.tv_sec = left_ns / 1000000000,
+                                       .tv_nsec = left_ns % 1000000000};
         struct io_uring_cqe *cqe = nullptr;
         int ret = io_uring_wait_cqe_timeout(ring, &cqe, &ts);
         if (ret == -ETIME) {
           break;  // Timeout
         }
+        if (ret == -EINTR) {
+          continue;
+        }
         if (ret < 0) {
           LOG_ERROR("io_uring_wait_cqe_timeout failed: {}", strerror(-ret));
           break;
@@ -133,6 +147,9 @@ class IOUringEngine final : public IOEngine {
       return false;
     }
 
+    // Heap-allocate callback context; freed in check_completion/drain_pending.
+    auto ctx = std::make_unique<AsyncCallbackData>(AsyncCallbackData{callback, callback_arg});
+
     auto *sqe = io_uring_get_sqe(ring);
     if (sqe == nullptr) {
       LOG_ERROR("io_uring SQ is full, cannot submit async read");
@@ -140,18 +157,16 @@ class IOUringEngine final : public IOEngine {
     }
 
     io_uring_prep_read(sqe, fd, buffer, static_cast<unsigned>(size), offset);
+    io_uring_sqe_set_data(sqe, ctx.get());
 
-    // Heap-allocate callback context; freed in check_completion/drain_pending.
-    auto *ctx = new AsyncCallbackData{callback, callback_arg};
-    io_uring_sqe_set_data(sqe, ctx);
-
-    int ret = io_uring_submit(ring);
-    if (ret < 0) {
-      delete ctx;
-      LOG_ERROR("io_uring async submit failed: {}", strerror(-ret));
+    int ret = submit_retrying(ring);
+    if (ret <= 0) {
+      discard_unsubmitted(ring);
+      LOG_ERROR("io_uring async submit failed: {}", ret < 0 ? strerror(-ret) : "no progress");
       return false;
     }
 
+    ctx.release();
     tl_ring_.async_in_flight_++;
     return true;
   }
@@ -166,16 +181,10 @@ class IOUringEngine final : public IOEngine {
     struct io_uring_cqe *cqe = nullptr;
 
     while (io_uring_peek_cqe(ring, &cqe) == 0) {
-      auto *ctx = static_cast<AsyncCallbackData *>(io_uring_cqe_get_data(cqe));
-      if (ctx != nullptr) {
-        ctx->callback_(ctx->arg_, cqe->res);
-        delete ctx;
-      }
-      io_uring_cqe_seen(ring, cqe);
       ++completed;
+      tl_ring_.complete_async(cqe);
     }
 
-    tl_ring_.async_in_flight_ -= completed;
     return completed;
   }
 
@@ -239,22 +248,32 @@ class IOUringEngine final : public IOEngine {
       initialized_ = true;
     }
 
+    /// Consume one completion, then run its callback. The CQE is released first so that a callback
+    /// which polls or submits again never sees it a second time.
+    void complete_async(struct io_uring_cqe *cqe) {
+      std::unique_ptr<AsyncCallbackData> ctx(
+          static_cast<AsyncCallbackData *>(io_uring_cqe_get_data(cqe)));
+      const int32_t res = cqe->res;
+      io_uring_cqe_seen(&ring_, cqe);
+      --async_in_flight_;
+      if (ctx != nullptr) {
+        ctx->callback_(ctx->arg_, res);
+      }
+    }
+
     /// Block until all pending async reads complete, invoking their callbacks.
     void drain_async() {
       while (async_in_flight_ > 0) {
         struct io_uring_cqe *cqe = nullptr;
         int ret = io_uring_wait_cqe(&ring_, &cqe);
+        if (ret == -EINTR) {
+          continue;
+        }
         if (ret < 0) {
           LOG_ERROR("drain_async: io_uring_wait_cqe failed: {}", strerror(-ret));
           break;
         }
-        auto *ctx = static_cast<AsyncCallbackData *>(io_uring_cqe_get_data(cqe));
-        if (ctx != nullptr) {
-          ctx->callback_(ctx->arg_, cqe->res);
-          delete ctx;
-        }
-        io_uring_cqe_seen(&ring_, cqe);
-        --async_in_flight_;
+        complete_async(cqe);
       }
     }
   };
@@ -268,6 +287,23 @@ class IOUringEngine final : public IOEngine {
     return tl_ring_.initialized_ ? &tl_ring_.ring_ : nullptr;
   }
 
+  static auto submit_retrying(struct io_uring *ring) -> int {
+    int ret = 0;
+    do {
+      ret = io_uring_submit(ring);
+    } while (ret == -EINTR);
+    return ret;
+  }
+
+  /// Take back the SQEs the kernel has not consumed, so that a later submit on this ring does not
+  /// execute requests that were already reported as not submitted.
+  static void discard_unsubmitted(struct io_uring *ring) {
+    const unsigned head = io_uring_smp_load_acquire(ring->sq.khead);
+    ring->sq.sqe_head = head;
+    ring->sq.sqe_tail = head;
+    io_uring_smp_store_release(ring->sq.ktail, head);
+  }
+
   auto submit_batch(int fd, std::span<IORequest> requests, bool is_write) -> size_t {
     if (requests.empty()) {
       return 0;
@@ -349,8 +385,9 @@ class IOUringEngine final : public IOEngine {
     size_t chunk_submitted = 0;
 
     while (chunk_submitted < chunk_requests.size()) {
-      int submitted = io_uring_submit(ring);
+      int submitted = submit_retrying(ring);
       if (submitted < 0) {
+        discard_unsubmitted(ring);
         mark_not_submitted(chunk_requests, chunk_submitted);
         LOG_ERROR(
             "io_uring_submit failed after submitting {}/{} requests for chunk starting "
@@ -362,6 +399,7 @@ class IOUringEngine final : public IOEngine {
         return false;
       }
       if (submitted == 0) {
+        discard_unsubmitted(ring);
         mark_not_submitted(chunk_requests, chunk_submitted);
         LOG_ERROR(
             "io_uring_submit made no progress after submitting {}/{} requests for chunk "
-- 
2.43.0


From ed8aefca0569c373a3bc49f69ab6eb59fb71dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 31/51] fix: report a failed node read of
 DiskPageIO::read_nodes_async instead of returning an empty node

---
 include/index/graph/diskann/disk_page_io.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/index/graph/diskann/disk_page_io.hpp b/include/index/graph/diskann/disk_page_io.hpp
index 7d3589d..4c2fda1 100644
--- a/include/index/graph/diskann/disk_page_io.hpp
+++ b/include/index/graph/diskann/disk_page_io.hpp
@@ -293,7 +293,10 @@ class DiskPageIO {
       for (uint32_t i = 0; i < count; ++i) {
         tasks.emplace_back(read_one(i));
       }
-      co_await coro::when_all(std::move(tasks));
+      auto results = co_await coro::when_all(std::move(tasks));
+      for (auto &result : results) {
+        result.return_value();  // rethrows what the read threw
+      }
     };
     coro::sync_wait(run());
     return out;
-- 
2.43.0


From 2afa15abe1e5267a6321df18dcde22064dc77a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 32/51] fix: keep DiskPageIO's page versions and coordinate
 cache coherent with failing and concurrent writes

---
 include/index/graph/diskann/disk_page_io.hpp | 31 +++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/index/graph/diskann/disk_page_io.hpp b/include/index/graph/diskann/disk_page_io.hpp
index 4c2fda1..c2da7a9 100644
--- a/include/index/graph/diskann/disk_page_io.hpp
+++ b/include/index/graph/diskann/disk_page_io.hpp
@@ -422,17 +422,18 @@ class DiskPageIO {
     if (n_nbrs > geom_.max_degree) {
       throw std::invalid_argument("DiskPageIO::write_node: n_nbrs exceeds max_degree");
     }
-    {
-      Shard &shard = shard_for(geom_.get_page_offset(id));
-      std::lock_guard<std::mutex> lock(shard.mutex);
-      load_page_for_write_locked(shard, id);
-      char *rec = shard.page_buf + geom_.offset_to_node(id);
-      std::memset(rec, 0, geom_.node_len);  // clear stale bytes (esp. a reused slot's tail)
-      pack_node_record(rec, coords, nbr_ids, n_nbrs, geom_.dim);
-      write_page_locked(shard, id);
-    }
+    std::vector<float> cached_coords(coords, coords + geom_.dim);
+    Shard &shard = shard_for(geom_.get_page_offset(id));
+    std::lock_guard<std::mutex> lock(shard.mutex);
+    load_page_for_write_locked(shard, id);
+    char *rec = shard.page_buf + geom_.offset_to_node(id);
+    std::memset(rec, 0, geom_.node_len);  // clear stale bytes (esp. a reused slot's tail)
+    pack_node_record(rec, coords, nbr_ids, n_nbrs, geom_.dim);
+    write_page_locked(shard, id);
+    // Keep the coords cache coherent: under the shard lock, so that writes of one
+    // node reach page and cache in the same order (lock order: shard -> vec).
     std::lock_guard<std::mutex> vec_lock(vec_mutex_);
-    vec_cache_[id].assign(coords, coords + geom_.dim);  // keep the coords cache coherent
+    vec_cache_[id] = std::move(cached_coords);
   }
 
   /// Overwrite only the `n_nbrs` + `nbr_ids` fields, leaving coords untouched.
@@ -974,6 +975,7 @@ inline void DiskPageIO::read_page_from_disk(uint64_t page_off, char *page) const
 
 inline void DiskPageIO::write_page_locked(Shard &shard, uint32_t id) {
   const uint64_t off = geom_.get_page_offset(id);
+  uint64_t &version = shard.versions[off];  // may allocate: before anything is changed
   if (shard.cache.enabled()) {
     shard.cache.write(off,
                       shard.page_buf,
@@ -982,11 +984,11 @@ inline void DiskPageIO::write_page_locked(Shard &shard, uint32_t id) {
                       [this, &shard](uint64_t page_off, const char *page) {
                         write_page_to_disk(shard, page_off, page);
                       });
-    ++shard.versions[off];
+    ++version;
     return;
   }
   write_page_to_disk(shard, off, shard.page_buf);
-  ++shard.versions[off];
+  ++version;
 }
 
 inline void DiskPageIO::write_page_to_disk(Shard &shard, uint64_t page_off, const char *page) {
@@ -1105,6 +1107,7 @@ inline void DiskPageIO::read_page_from_disk(uint64_t page_off, char *page) const
 
 inline void DiskPageIO::write_page_locked(Shard &shard, uint32_t id) {
   const uint64_t off = geom_.get_page_offset(id);
+  uint64_t &version = shard.versions[off];  // may allocate: before anything is changed
   if (shard.cache.enabled()) {
     shard.cache.write(off,
                       shard.page_buf,
@@ -1113,11 +1116,11 @@ inline void DiskPageIO::write_page_locked(Shard &shard, uint32_t id) {
                       [this, &shard](uint64_t page_off, const char *page) {
                         write_page_to_disk(shard, page_off, page);
                       });
-    ++shard.versions[off];
+    ++version;
     return;
   }
   write_page_to_disk(shard, off, shard.page_buf);
-  ++shard.versions[off];
+  ++version;
 }
 
 inline void DiskPageIO::write_page_to_disk(Shard &shard, uint64_t page_off, const char *page) {
-- 
2.43.0


From d519fce6b355d259defed21b55adf97f046eca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 33/51] fix: guard DiskANN's removed-neighbour lists, which
 concurrent inserts look up and forget

---
 .../graph/diskann/disk_update_context.hpp     | 30 +++++++++++++++++--
 include/index/graph/diskann/diskann_index.hpp | 16 ++--------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/include/index/graph/diskann/disk_update_context.hpp b/include/index/graph/diskann/disk_update_context.hpp
index 605efb7..581067f 100644
--- a/include/index/graph/diskann/disk_update_context.hpp
+++ b/include/index/graph/diskann/disk_update_context.hpp
@@ -13,21 +13,45 @@
 #pragma once
 
 #include <cstdint>
+#include <mutex>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace alaya::diskann {
 
 struct DiskUpdateContext {
-  /// Old neighbor list of each deleted node, for two-hop bypass.
+  /// Old neighbor list of each deleted node, for two-hop bypass. Concurrent
+  /// inserts look entries up while others forget the slots they reuse, so all
+  /// access goes through the members below.
   std::unordered_map<uint32_t, std::vector<uint32_t>> removed_node_nbrs_;
+  mutable std::mutex removed_mutex_;
 
   /// Drop all transient state (e.g. after flush, or on teardown).
-  void clear() { removed_node_nbrs_.clear(); }
+  void clear() {
+    std::lock_guard<std::mutex> lock(removed_mutex_);
+    removed_node_nbrs_.clear();
+  }
+
+  /// Remember the neighbor list of a node that is being deleted.
+  void remember_removed(uint32_t slot, std::vector<uint32_t> neighbors) {
+    std::lock_guard<std::mutex> lock(removed_mutex_);
+    removed_node_nbrs_[slot] = std::move(neighbors);
+  }
+
+  /// Old neighbor list of a deleted node (empty when none is known).
+  [[nodiscard]] std::vector<uint32_t> removed_neighbors(uint32_t slot) const {
+    std::lock_guard<std::mutex> lock(removed_mutex_);
+    const auto it = removed_node_nbrs_.find(slot);
+    return it == removed_node_nbrs_.end() ? std::vector<uint32_t>{} : it->second;
+  }
 
   /// Forget a slot that has just been reused by an insert: its cached two-hop
   /// data no longer describes the node now living in the slot.
-  void forget_slot(uint32_t slot) { removed_node_nbrs_.erase(slot); }
+  void forget_slot(uint32_t slot) {
+    std::lock_guard<std::mutex> lock(removed_mutex_);
+    removed_node_nbrs_.erase(slot);
+  }
 
   /// True when the safety-net proactive reconnect should fire: the tombstone
   /// ratio has reached @p ratio_threshold AND no insert-driven reconnect has run
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index c4cde0f..decc2c6 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -1676,7 +1676,7 @@ class DiskANNIndex {
   }
 
   void remove_unlocked_with_neighbors(uint32_t internal_id, std::vector<uint32_t> old_neighbors) {
-    update_ctx_.removed_node_nbrs_[internal_id] = std::move(old_neighbors);
+    update_ctx_.remember_removed(internal_id, std::move(old_neighbors));
     const uint64_t label = labels_[internal_id];
     const auto label_it = label_to_slot_.find(label);
     if (label_it != label_to_slot_.end() && label_it->second == internal_id) {
@@ -1967,7 +1967,6 @@ class DiskANNIndex {
     for (const uint32_t e : extra_edges) {
       push(e);
     }
-    const auto &removed_node_nbrs = update_ctx_.removed_node_nbrs_;
     for (const uint32_t nbr : nd.nbrs) {
       if (nbr == node_id) {
         continue;
@@ -1976,12 +1975,8 @@ class DiskANNIndex {
         push(nbr);
         continue;
       }
-      const auto it = removed_node_nbrs.find(nbr);
-      if (it == removed_node_nbrs.end()) {
-        continue;
-      }
       uint32_t pulled = 0;
-      for (const uint32_t o : it->second) {
+      for (const uint32_t o : update_ctx_.removed_neighbors(nbr)) {
         if (o == node_id || slot_alloc_.is_deleted(o)) {
           continue;
         }
@@ -2025,7 +2020,6 @@ class DiskANNIndex {
     for (const uint32_t e : extra_edges) {
       push(e);
     }
-    const auto &removed_node_nbrs = update_ctx_.removed_node_nbrs_;
     for (const uint32_t nbr : nd.nbrs) {
       if (nbr == node_id) {
         continue;
@@ -2034,12 +2028,8 @@ class DiskANNIndex {
         push(nbr);
         continue;
       }
-      const auto it = removed_node_nbrs.find(nbr);
-      if (it == removed_node_nbrs.end()) {
-        continue;
-      }
       uint32_t pulled = 0;
-      for (const uint32_t o : it->second) {
+      for (const uint32_t o : update_ctx_.removed_neighbors(nbr)) {
         if (o == node_id || slot_alloc_.is_deleted(o)) {
           continue;
         }
-- 
2.43.0


From 4a8ec0a58c1520d683ed92764ae03603234e2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 34/51] fix: report failed inserts and reconnects of DiskANN
 batches instead of dropping their exceptions

---
 include/index/graph/diskann/diskann_index.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index decc2c6..dcfbc0e 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -1082,6 +1082,14 @@ class DiskANNIndex {
     bool has_tombstone = false;
   };
 
+  /// when_all() keeps each task's exception in that task; raise the first one.
+  template <typename Results>
+  static void rethrow_failures(Results &&results) {
+    for (auto &result : results) {
+      result.return_value();
+    }
+  }
+
   static std::string path(const std::string &dir, const char *name) {
     return (std::filesystem::path(dir) / name).string();
   }
@@ -1792,7 +1800,7 @@ class DiskANNIndex {
       for (const uint32_t n : selected) {
         reconnects.emplace_back(reconnect_one(n));
       }
-      co_await coro::when_all(std::move(reconnects));
+      rethrow_failures(co_await coro::when_all(std::move(reconnects)));
       st_reconnect_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
       st_inserts_.fetch_add(1, std::memory_order_relaxed);
     };
@@ -1805,7 +1813,7 @@ class DiskANNIndex {
         for (uint32_t i = off; i < end; ++i) {
           tasks.emplace_back(insert_one(i));
         }
-        co_await coro::when_all(std::move(tasks));
+        rethrow_failures(co_await coro::when_all(std::move(tasks)));
       };
       coro::sync_wait(run());
     }
@@ -2090,7 +2098,7 @@ class DiskANNIndex {
       for (const uint32_t node_id : neighbors) {
         tasks.emplace_back(reconnect_one(node_id));
       }
-      co_await coro::when_all(std::move(tasks));
+      rethrow_failures(co_await coro::when_all(std::move(tasks)));
     };
     try {
       coro::sync_wait(run());
@@ -2377,7 +2385,7 @@ class DiskANNIndex {
     for (uint32_t t = 0; t < inflight; ++t) {
       warm.emplace_back(presize(pipeline_tds_[t].get()));
     }
-    coro::sync_wait(coro::when_all(std::move(warm)));
+    rethrow_failures(coro::sync_wait(coro::when_all(std::move(warm))));
   }
 #endif
 
-- 
2.43.0


From b9211bb5ef2950cb18e1b07b3ad902d34cbe47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:49 +0000
Subject: [PATCH 35/51] fix: give back the slot of a DiskANN insert that failed
 before it was published

---
 include/index/graph/diskann/diskann_index.hpp | 50 +++++++++++++------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index dcfbc0e..ae795fa 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -837,8 +837,13 @@ class DiskANNIndex {
       std::lock_guard<std::mutex> slot_lock(slot_mutex_);
       slot = allocate_update_slot_unlocked(label);
     }
-    encode_pq_slot(query, slot);
-    write_inserted_node(slot, query, pruned);
+    try {
+      encode_pq_slot(query, slot);
+      write_inserted_node(slot, query, pruned);
+    } catch (...) {
+      abandon_slot(slot);
+      throw;
+    }
     publish_slots(&slot, &slot + 1);
     reconnect_inserted_neighbors(pruned, slot);
     return slot;
@@ -1500,6 +1505,14 @@ class DiskANNIndex {
     return slot;
   }
 
+  /// Take back a slot whose insert failed before it was published.
+  void abandon_slot(uint32_t slot) {
+    std::unique_lock<std::shared_mutex> state_lock(update_mutex_);
+    std::lock_guard<std::mutex> slot_lock(slot_mutex_);
+    slot_alloc_.free(slot);
+    --live_count_;
+  }
+
   static void validate_unique_external_labels(const uint64_t *labels,
                                               uint64_t count,
                                               const char *method) {
@@ -1775,21 +1788,26 @@ class DiskANNIndex {
         std::lock_guard<std::mutex> slot_lock(slot_mutex_);
         ids[i] = allocate_update_slot_unlocked(labels[i]);
       }
-      encode_pq_slot(vec, ids[i]);
-      st_alloc_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
-      if (page_io_->reactor_enabled()) {
-        // ONE wave warms every page this insert will RMW: the slot's own page
-        // (written below) plus all selected neighbors' pages (their reconnects
-        // read-modify-write them right after). One suspension instead of a
-        // wave per reconnect — the per-edge waves were the dominant queue load.
-        std::vector<uint32_t> warm;
-        warm.reserve(selected.size() + 1);
-        warm.push_back(ids[i]);
-        warm.insert(warm.end(), selected.begin(), selected.end());
-        co_await page_io_->prefetch_pages(warm.data(), warm.size(), pool);
+      try {
+        encode_pq_slot(vec, ids[i]);
+        st_alloc_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
+        if (page_io_->reactor_enabled()) {
+          // ONE wave warms every page this insert will RMW: the slot's own page
+          // (written below) plus all selected neighbors' pages (their reconnects
+          // read-modify-write them right after). One suspension instead of a
+          // wave per reconnect — the per-edge waves were the dominant queue load.
+          std::vector<uint32_t> warm;
+          warm.reserve(selected.size() + 1);
+          warm.push_back(ids[i]);
+          warm.insert(warm.end(), selected.begin(), selected.end());
+          co_await page_io_->prefetch_pages(warm.data(), warm.size(), pool);
+        }
+        st_prefetch_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
+        write_inserted_node(ids[i], vec, selected);
+      } catch (...) {
+        abandon_slot(ids[i]);
+        throw;
       }
-      st_prefetch_us_.fetch_add(stage_us_since(mark), std::memory_order_relaxed);
-      write_inserted_node(ids[i], vec, selected);
       publish_slots(&ids[i], &ids[i] + 1);
       for (const uint32_t n : selected) {
         staged.add(n, ids[i]);
-- 
2.43.0


From 1b7b1a9aea123ebe9bad87a8819814aad597c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 36/51] fix: lock DiskANN's PQ codes in asynchronous searches
 and update scoring, since inserts reallocate them

---
 include/index/graph/diskann/beam_search.hpp     |  4 ++++
 .../index/graph/diskann/beam_search_async.hpp   | 17 ++++++++++++-----
 include/index/graph/diskann/diskann_index.hpp   | 15 +++++++++------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index a2392da..a010e80 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -49,6 +49,7 @@
 #include <chrono>
 #include <cstdint>
 #include <deque>
+#include <shared_mutex>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -84,6 +85,9 @@ struct SearchContext {
   const DiskLayoutGeometry *geom = nullptr;
   const NodeCache *cache = nullptr;
   const PQTable *pq = nullptr;  ///< nullptr => index has no PQ
+  /// Guards the PQ code table, which inserts grow and overwrite. Locked shared
+  /// around each use by searches whose caller does not hold it already.
+  std::shared_mutex *pq_mutex = nullptr;
   uint32_t medoid = 0;
   uint64_t num_points = 0;
 
diff --git a/include/index/graph/diskann/beam_search_async.hpp b/include/index/graph/diskann/beam_search_async.hpp
index 1f057df..94fb730 100644
--- a/include/index/graph/diskann/beam_search_async.hpp
+++ b/include/index/graph/diskann/beam_search_async.hpp
@@ -252,10 +252,8 @@ inline auto disk_greedy_search_async(const SearchContext &ctx,
 ///
 /// PQ-lock note: callers do NOT hold pq_mutex_ across this coroutine (a
 /// shared_mutex may not be released on a different thread than took it).
-/// That is safe by protocol: concurrent encode_pq_slot() only writes codes of
-/// slots that are still dark (allocated, not yet published), and the search's
-/// tombstone snapshot — taken before the search — masks every such slot, so
-/// pq_distance is never called on an entry being written.
+/// Instead ctx.pq_mutex is locked around each stretch that reads codes, none
+/// of which suspends: a concurrent encode_pq_slot() may reallocate the table.
 inline auto pq_beam_search_async(const SearchContext &ctx,
                                  const float *query,
                                  uint32_t top_k,
@@ -284,8 +282,16 @@ inline auto pq_beam_search_async(const SearchContext &ctx,
   pq.preprocess_query(query, td.pq_table.data(), td.pq_qres.data());
   const float *pq_table = td.pq_table.data();
 
+  auto lock_codes = [&]() {
+    return ctx.pq_mutex != nullptr ? std::shared_lock<std::shared_mutex>(*ctx.pq_mutex)
+                                   : std::shared_lock<std::shared_mutex>();
+  };
+
   visited.set(ctx.medoid);
-  retset.insert(alaya::vamana::Neighbor(ctx.medoid, pq.pq_distance(ctx.medoid, pq_table)));
+  {
+    const auto codes_lock = lock_codes();
+    retset.insert(alaya::vamana::Neighbor(ctx.medoid, pq.pq_distance(ctx.medoid, pq_table)));
+  }
 
   const uint64_t beam = std::max<uint64_t>(1, params.beam_width);
   td.ensure_wave_scratch(beam * page_size);
@@ -297,6 +303,7 @@ inline auto pq_beam_search_async(const SearchContext &ctx,
       stats->read_order.push_back(id);
       stats->n_nodes_processed++;
     }
+    const auto codes_lock = lock_codes();
     scan_and_insert_neighbors(retset,
                               visited,
                               view.nbrs(),
diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index ae795fa..94ee307 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -696,8 +696,8 @@ class DiskANNIndex {
           SearchStats *stats = per_query_stats != nullptr ? &per_query_stats[qi] : nullptr;
           const float *query = queries + static_cast<uint64_t>(qi) * dim_;
           // No pq_mutex_ across the coroutine (a shared_mutex may not be
-          // released on another thread) — safe by the dark-slot protocol, see
-          // run_update_search_async.
+          // released on another thread) — the search locks it as it goes.
+          ctx.pq_mutex = &pq_mutex_;
           std::vector<std::pair<uint32_t, float>> results;
           if (use_pq) {
             results = co_await pq_beam_search_async(ctx,
@@ -1262,10 +1262,9 @@ class DiskANNIndex {
         sp.beam_width = beam_width_;
         sp.use_pq = has_pq_;
         sp.rerank = false;
-        // No pq_mutex_ here (a shared_mutex cannot be released on a different
-        // thread than locked it): safe because concurrent encode_pq_slot only
-        // writes codes of still-dark slots, all masked by snapshot.tombstone —
-        // see the note on pq_beam_search_async.
+        // Not held across the search (a shared_mutex cannot be released on a
+        // different thread than locked it): the search locks it as it goes.
+        ctx.pq_mutex = &pq_mutex_;
         if (has_pq_) {
           results = co_await pq_beam_search_async(ctx,
                                                   query,
@@ -1408,6 +1407,7 @@ class DiskANNIndex {
     std::vector<uint8_t> query_code(pq_n_chunks_);
     pq_.encode_to_code(query, query_code.data());
     if (update_insert_prune_) {
+      std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
       std::vector<alaya::vamana::Neighbor> pool;
       pool.reserve(cand.size());
       for (const auto &c : cand) {
@@ -1433,6 +1433,7 @@ class DiskANNIndex {
     if (cand.size() > max_degree_) {
       cand.resize(max_degree_);
     }
+    std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
     std::vector<alaya::vamana::Neighbor> pool;
     pool.reserve(cand.size());
     for (const auto &c : cand) {
@@ -1869,6 +1870,7 @@ class DiskANNIndex {
                                                            const std::vector<uint32_t> &cand) {
     std::vector<alaya::vamana::Neighbor> pool;
     pool.reserve(cand.size());
+    std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
     for (const uint32_t c : cand) {
       pool.emplace_back(c, pq_.pq_symmetric_distance(node_id, c));
     }
@@ -1903,6 +1905,7 @@ class DiskANNIndex {
       return new_nbrs;
     }
     if (has_pq_) {
+      std::shared_lock<std::shared_mutex> pq_lock(pq_mutex_);
       auto dist_fn = [this](uint32_t a, uint32_t b) -> float {
         return pq_.pq_symmetric_distance(a, b);
       };
-- 
2.43.0


From f90c0691ca75eb7173ab5b4886a7f182352d5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 37/51] fix: DiskANN searches leave out results whose slot was
 reused for another record meanwhile

---
 include/index/graph/diskann/diskann_index.hpp | 54 ++++++++++++-------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 94ee307..53fa0fa 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -479,21 +479,13 @@ class DiskANNIndex {
       sp.deterministic = params.deterministic;
 
       results = cached_beam_search(ctx, query, top_k, sp, *td, stats);
-      count = static_cast<uint32_t>(results.size());
     } catch (...) {
       release(td);
       throw;
     }
     release(td);
 
-    {
-      std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
-      for (uint32_t i = 0; i < count; ++i) {
-        const uint32_t id = results[i].first;
-        out_labels[i] = id < labels_.size() ? labels_[id] : kNoLabel;
-        out_distances[i] = results[i].second;
-      }
-    }
+    count = write_result_row(snapshot, results, top_k, out_labels, out_distances);
 
     // Pad unused slots with sentinels so callers can detect short result rows.
     for (uint32_t i = count; i < top_k; ++i) {
@@ -723,15 +715,7 @@ class DiskANNIndex {
 
           uint64_t *labels_row = out_labels + static_cast<uint64_t>(qi) * top_k;
           float *dist_row = out_distances + static_cast<uint64_t>(qi) * top_k;
-          const uint32_t count = std::min<uint32_t>(static_cast<uint32_t>(results.size()), top_k);
-          {
-            std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
-            for (uint32_t i = 0; i < count; ++i) {
-              const uint32_t id = results[i].first;
-              labels_row[i] = id < labels_.size() ? labels_[id] : kNoLabel;
-              dist_row[i] = results[i].second;
-            }
-          }
+          const uint32_t count = write_result_row(snapshot, results, top_k, labels_row, dist_row);
           for (uint32_t i = count; i < top_k; ++i) {
             labels_row[i] = kNoLabel;
             dist_row[i] = std::numeric_limits<float>::max();
@@ -1085,6 +1069,7 @@ class DiskANNIndex {
     uint64_t max_slot_id = 0;
     TombstoneSnapshot tombstone;
     bool has_tombstone = false;
+    uint64_t epoch = 0;  ///< allocation epoch: slots allocated later hold other records
   };
 
   /// when_all() keeps each task's exception in that task; raise the first one.
@@ -1103,6 +1088,7 @@ class DiskANNIndex {
     SearchSnapshot snapshot;
     std::shared_lock<std::shared_mutex> lock(update_mutex_);
     snapshot.max_slot_id = max_slot_id_;
+    snapshot.epoch = alloc_epoch_;
     // All tombstone mutators run under the exclusive side of update_mutex_
     // (verified in the A3 audit), so count() is stable under our shared lock:
     // zero set bits means the snapshot would be all-live — skip the copy. The
@@ -1115,6 +1101,30 @@ class DiskANNIndex {
     return snapshot;
   }
 
+  /// Write a search's results as labels and distances, at most @p top_k. A slot
+  /// that was deleted and reused since @p snapshot now holds another record,
+  /// whose label does not belong to this result: such results are left out.
+  uint32_t write_result_row(const SearchSnapshot &snapshot,
+                            const std::vector<std::pair<uint32_t, float>> &results,
+                            uint32_t top_k,
+                            uint64_t *labels_row,
+                            float *dist_row) const {
+    std::shared_lock<std::shared_mutex> state_lock(update_mutex_);
+    uint32_t count = 0;
+    for (const auto &[id, distance] : results) {
+      if (count == top_k) {
+        break;
+      }
+      if (id < slot_epochs_.size() && slot_epochs_[id] > snapshot.epoch) {
+        continue;
+      }
+      labels_row[count] = id < labels_.size() ? labels_[id] : kNoLabel;
+      dist_row[count] = distance;
+      ++count;
+    }
+    return count;
+  }
+
   // ---- in-place update internals (update APIs are serialized; metadata writes
   //      take update_mutex_ only for the narrow mutation/snapshot windows) ----
 
@@ -1501,6 +1511,10 @@ class DiskANNIndex {
     update_ctx_.forget_slot(slot);
     max_slot_id_ = std::max<uint64_t>(max_slot_id_, slot_alloc_.next_fresh_id());
     set_label(slot, label);
+    if (slot >= slot_epochs_.size()) {
+      slot_epochs_.resize(static_cast<size_t>(slot) + 1, 0);
+    }
+    slot_epochs_[slot] = ++alloc_epoch_;
     ++live_count_;
     ops_since_last_insert_ = 0;
     return slot;
@@ -2243,6 +2257,8 @@ class DiskANNIndex {
     update_reactor_.reset();  // after page_io_: it holds a raw pointer to the reactor
     update_ctx_.clear();
     label_to_slot_.clear();
+    slot_epochs_.clear();
+    alloc_epoch_ = 0;
     updatable_ = false;
     loaded_ = false;
   }
@@ -2414,6 +2430,8 @@ class DiskANNIndex {
   bool updatable_ = false;
   uint64_t max_slot_id_ = 0;  ///< file capacity in slots (valid-id bound; only grows)
   uint64_t live_count_ = 0;   ///< live (non-tombstoned) vector count
+  uint64_t alloc_epoch_ = 0;  ///< counts slot allocations (under update_mutex_)
+  std::vector<uint64_t> slot_epochs_;  ///< when each slot was last allocated; 0 = at load
   std::string index_dir_;     ///< saved at load for flush() output paths
   std::unique_ptr<alaya::UringReactor> update_reactor_;  ///< declared before page_io_ so the
                                                          ///< page IO (raw-pointer user) dies first
-- 
2.43.0


From a637ed88c735ffd40730ce7a9734f7f7c7678b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 38/51] fix: DiskANNIndex::batch_search and load() report a
 failure of their worker threads instead of terminating

---
 include/index/graph/diskann/diskann_index.hpp | 40 +++++++++++++++----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 53fa0fa..23d70e0 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -388,19 +388,29 @@ class DiskANNIndex {
     thread_data_storage_.resize(pool);
     {
       std::vector<std::thread> regs;
+      std::vector<std::exception_ptr> reg_errors(pool);
       regs.reserve(pool);
       for (uint32_t t = 0; t < pool; ++t) {
-        regs.emplace_back([this, t, scratch_config]() {
-          reader_->register_thread();
-          auto td = std::make_unique<ThreadData>();
-          td->ctx_ = reader_->get_ctx();
-          td->alloc_scratch(scratch_config);
-          thread_data_storage_[t] = std::move(td);
+        regs.emplace_back([this, t, scratch_config, &reg_errors]() {
+          try {
+            reader_->register_thread();
+            auto td = std::make_unique<ThreadData>();
+            td->ctx_ = reader_->get_ctx();
+            td->alloc_scratch(scratch_config);
+            thread_data_storage_[t] = std::move(td);
+          } catch (...) {
+            reg_errors[t] = std::current_exception();
+          }
         });
       }
       for (auto &th : regs) {
         th.join();
       }
+      for (const auto &error : reg_errors) {
+        if (error) {
+          std::rethrow_exception(error);
+        }
+      }
     }
     for (auto &td : thread_data_storage_) {
       ThreadData *p = td.get();
@@ -535,6 +545,8 @@ class DiskANNIndex {
     }
 
     std::atomic<uint32_t> next{0};
+    std::mutex error_mutex;
+    std::exception_ptr first_error;
     std::vector<std::thread> pool;
     pool.reserve(workers);
     for (uint32_t w = 0; w < workers; ++w) {
@@ -544,13 +556,27 @@ class DiskANNIndex {
           if (qi >= n_queries) {
             break;
           }
-          run_one(qi);
+          try {
+            run_one(qi);
+          } catch (...) {
+            {
+              std::lock_guard<std::mutex> guard(error_mutex);
+              if (!first_error) {
+                first_error = std::current_exception();
+              }
+            }
+            next.store(n_queries);  // drain remaining work
+            break;
+          }
         }
       });
     }
     for (auto &th : pool) {
       th.join();
     }
+    if (first_error) {
+      std::rethrow_exception(first_error);
+    }
   }
 
 #if defined(__linux__)
-- 
2.43.0


From bdc13c2c4d3b5c5b8a819fc06d4753417a9ea568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 39/51] fix: DiskANN searches wait for their reads in flight
 before they fail and hand back the buffers

---
 include/index/graph/diskann/beam_search.hpp | 48 ++++++++++++++++++---
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/include/index/graph/diskann/beam_search.hpp b/include/index/graph/diskann/beam_search.hpp
index a010e80..1698cb2 100644
--- a/include/index/graph/diskann/beam_search.hpp
+++ b/include/index/graph/diskann/beam_search.hpp
@@ -101,6 +101,40 @@ struct SearchContext {
   DiskPageIO *page_io = nullptr;
 };
 
+/// Reads a query has in flight. A query that ends early waits for them: their
+/// buffers and the context go to the next query, which must not meet them.
+class OutstandingReads {
+ public:
+  OutstandingReads(AlignedFileReader &reader, IOContext &ctx) : reader_(reader), ctx_(ctx) {}
+  OutstandingReads(const OutstandingReads &) = delete;
+  auto operator=(const OutstandingReads &) -> OutstandingReads & = delete;
+
+  ~OutstandingReads() {
+    try {
+      while (count_ > 0) {
+        std::vector<AlignedReadEvent> ignored;
+        wait(1, ignored);
+      }
+    } catch (...) {  // the context cannot be waited for any more
+    }
+  }
+
+  void submit(std::vector<AlignedRead> &reqs) {
+    reader_.submit_reqs(reqs, ctx_);  // on failure none of the batch is left in flight
+    count_ += reqs.size();
+  }
+
+  void wait(int n, std::vector<AlignedReadEvent> &events) {
+    reader_.get_events(ctx_, n, events);
+    count_ -= std::min(count_, events.size());
+  }
+
+ private:
+  AlignedFileReader &reader_;
+  IOContext &ctx_;
+  size_t count_ = 0;
+};
+
 /// Optional instrumentation for tests / profiling.
 struct SearchStats {
   uint64_t n_ios = 0;                ///< page reads issued to disk
@@ -192,6 +226,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
                                                                   ThreadData &td,
                                                                   SearchStats *stats) {
   AlignedFileReader &reader = *ctx.reader;
+  OutstandingReads reads(reader, td.ctx_);
   const DiskLayoutGeometry &geom = *ctx.geom;
   const NodeCache &cache = *ctx.cache;
   const uint64_t dim = geom.dim;
@@ -418,7 +453,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
         reqs.emplace_back(page_off, page_size, m, buf);
       }
       if (!reqs.empty()) {
-        reader.submit_reqs(reqs, td.ctx_);
+        reads.submit(reqs);
         if (stats != nullptr) {
           stats->n_ios += reqs.size();
         }
@@ -432,7 +467,7 @@ inline std::vector<std::pair<uint32_t, float>> disk_greedy_search(const SearchCo
     // without ever entering `inflight`).
     while (td.has_inflight() || !pending.empty() || frontier.has_unexpanded_node()) {
       if (td.has_inflight()) {
-        reader.get_events(td.ctx_, 1, evts);  // get_events clears + fills `evts`
+        reads.wait(1, evts);  // get_events clears + fills `evts`
         for (const auto &e : evts) {
           if (e.result != static_cast<int64_t>(page_size)) {
             throw std::runtime_error("disk_greedy_search: short/failed read, result=" +
@@ -488,6 +523,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
   }
 
   AlignedFileReader &reader = *ctx.reader;
+  OutstandingReads reads(reader, td.ctx_);
   const DiskLayoutGeometry &geom = *ctx.geom;
   const NodeCache &cache = *ctx.cache;
   const PQTable &pq = *ctx.pq;
@@ -592,8 +628,8 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
       }
 
       if (!reqs.empty()) {
-        reader.submit_reqs(reqs, td.ctx_);
-        reader.get_events(td.ctx_, static_cast<int>(reqs.size()), evts);
+        reads.submit(reqs);
+        reads.wait(static_cast<int>(reqs.size()), evts);
         if (stats != nullptr) {
           stats->n_ios += reqs.size();
         }
@@ -674,7 +710,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
         reqs.emplace_back(page_off, page_size, id, buf);
       }
       if (!reqs.empty()) {
-        reader.submit_reqs(reqs, td.ctx_);
+        reads.submit(reqs);
         if (stats != nullptr) {
           stats->n_ios += reqs.size();
         }
@@ -692,7 +728,7 @@ inline std::vector<std::pair<uint32_t, float>> cached_beam_search(const SearchCo
         stats->n_waits++;
         stats->inflight_sum += beam - free_slots.size();
       }
-      reader.get_events(td.ctx_, 1, evts);
+      reads.wait(1, evts);
       if (stats != nullptr) {
         stats->wait_us +=
             static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::microseconds>(
-- 
2.43.0


From 08fcdc000007f99cf5f9dd88cf5f9f2f2bb691f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 40/51] fix: DiskANN index files report write errors that only
 surface when the file is closed

---
 include/index/graph/diskann/diskann_index.hpp | 2 ++
 include/index/graph/diskann/node_cache.hpp    | 2 ++
 include/index/graph/diskann/pq_table.hpp      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 23d70e0..2403add 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2312,6 +2312,7 @@ class DiskANNIndex {
     w(&m.nodes_per_sector, sizeof(m.nodes_per_sector));
     w(&m.max_slot_id, sizeof(m.max_slot_id));  // v2
     w(&m.live_count, sizeof(m.live_count));    // v2
+    out.close();  // the last buffered bytes are written here
     if (!out) {
       throw std::runtime_error("DiskANNIndex: meta write failed " + p);
     }
@@ -2371,6 +2372,7 @@ class DiskANNIndex {
     out.write(reinterpret_cast<const char *>(&n), sizeof(n));
     out.write(reinterpret_cast<const char *>(labels),
               static_cast<std::streamsize>(n * sizeof(uint64_t)));
+    out.close();  // the last buffered bytes are written here
     if (!out) {
       throw std::runtime_error("DiskANNIndex: ids write failed " + p);
     }
diff --git a/include/index/graph/diskann/node_cache.hpp b/include/index/graph/diskann/node_cache.hpp
index 403dd83..521acf5 100644
--- a/include/index/graph/diskann/node_cache.hpp
+++ b/include/index/graph/diskann/node_cache.hpp
@@ -169,6 +169,7 @@ class NodeCache {
         out.write(reinterpret_cast<const char *>(ids.data()),
                   static_cast<std::streamsize>(count * sizeof(uint32_t)));
       }
+      out.close();  // the last buffered bytes are written here
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + ids_path);
       }
@@ -189,6 +190,7 @@ class NodeCache {
         }
         out.write(record, static_cast<std::streamsize>(node_len_));
       }
+      out.close();  // the last buffered bytes are written here
       if (!out) {
         throw std::runtime_error("NodeCache::save: write failed for " + nodes_path);
       }
diff --git a/include/index/graph/diskann/pq_table.hpp b/include/index/graph/diskann/pq_table.hpp
index e31dff8..c4c017a 100644
--- a/include/index/graph/diskann/pq_table.hpp
+++ b/include/index/graph/diskann/pq_table.hpp
@@ -380,6 +380,7 @@ class PQTable {
                 static_cast<std::streamsize>(global_centroid_.size() * sizeof(float)));
       out.write(reinterpret_cast<const char *>(codebook_.data()),
                 static_cast<std::streamsize>(codebook_.size() * sizeof(float)));
+      out.close();  // the last buffered bytes are written here
       if (!out) {
         throw std::runtime_error("PQTable::save: write failed for " + pivots_path);
       }
@@ -391,6 +392,7 @@ class PQTable {
       }
       out.write(reinterpret_cast<const char *>(codes_.data()),
                 static_cast<std::streamsize>(codes_.size()));
+      out.close();  // the last buffered bytes are written here
       if (!out) {
         throw std::runtime_error("PQTable::save: write failed for " + compressed_path);
       }
-- 
2.43.0


From 99c9f8515584c57b4d95825714b2796193063ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 41/51] fix: DiskANNIndex drops its pipelined-search scratch
 when another index is loaded

---
 include/index/graph/diskann/diskann_index.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 2403add..71db7e0 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -2276,6 +2276,12 @@ class DiskANNIndex {
       }
     }
     thread_data_storage_.clear();
+#if defined(__linux__)
+    for (auto &td : pipeline_tds_) {
+      td->free_scratch();
+    }
+    pipeline_tds_.clear();  // sized for this index; the next one may differ
+#endif
     while (thread_data_pool_.pop() != nullptr) {
     }
     reader_.reset();
-- 
2.43.0


From fafbed6ba23f89ea0b956221950500c752693c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 42/51] fix: size DiskANN's neighbour scratch for the default
 update search list

---
 include/index/graph/diskann/diskann_index.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/index/graph/diskann/diskann_index.hpp b/include/index/graph/diskann/diskann_index.hpp
index 71db7e0..9954f56 100644
--- a/include/index/graph/diskann/diskann_index.hpp
+++ b/include/index/graph/diskann/diskann_index.hpp
@@ -372,7 +372,11 @@ class DiskANNIndex {
         params.nopq_io_depth == 0 ? kDefaultNoPQIoDepth : params.nopq_io_depth;
     const uint64_t scratch_slots =
         std::min<uint64_t>(1024, std::max<uint64_t>(2ull * beam_width_, nopq_depth));
+    // Inserts search with update_search_l_, resolved as init_updatable() does.
+    const uint32_t update_list_size =
+        params.update_search_l != 0 ? params.update_search_l : max_degree_ + 32;
     const uint32_t scratch_list_size = std::max({DiskANNSearchParams{}.search_list_size,
+                                                 params.updatable ? update_list_size : 0U,
                                                  params.update_search_l,
                                                  params.scratch_search_list_size});
     ThreadDataScratchConfig scratch_config;
-- 
2.43.0


From e46019aabc1c4ea8ddc97c3aa8fecae395e0fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 43/51] fix: a LASER search checks its reads, and gives back
 its workspace when it fails

---
 include/index/graph/laser/qg/qg.hpp | 56 +++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 7aec188..773e0a9 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -154,6 +154,47 @@ class QuantizedGraph {
   void allocate_data();
   void init_workspace();
 
+  /// Holds a workspace for one search. However the search ends, its reads in flight
+  /// are waited for (their buffers go to the next search) and the workspace goes back.
+  class WorkspaceLease {
+   public:
+    WorkspaceLease(QuantizedGraph &graph, ThreadData &data) : graph_(graph), data_(data) {}
+    WorkspaceLease(const WorkspaceLease &) = delete;
+    auto operator=(const WorkspaceLease &) -> WorkspaceLease & = delete;
+
+    ~WorkspaceLease() {
+      try {
+        std::vector<AlignedReadEvent> ignored;
+        while (in_flight_ > 0) {
+          in_flight_ -= static_cast<size_t>(
+              graph_.aligned_file_reader_->get_events(data_.ctx_, 1, ignored));
+        }
+      } catch (...) {  // the context cannot be waited for any more
+      }
+      graph_.thread_data_.push(data_);
+      graph_.thread_data_.push_notify_all();
+    }
+
+    auto submit(std::vector<AlignedRead> &reqs) -> size_t {
+      // on failure none of the batch is left in flight
+      const auto taken =
+          static_cast<size_t>(graph_.aligned_file_reader_->submit_reqs(reqs, data_.ctx_));
+      in_flight_ += taken;
+      return taken;
+    }
+
+    auto poll(int max_events, std::vector<AlignedReadEvent> &out) -> int {
+      const int ret = graph_.aligned_file_reader_->poll_events(data_.ctx_, max_events, out);
+      in_flight_ -= static_cast<size_t>(ret);
+      return ret;
+    }
+
+   private:
+    QuantizedGraph &graph_;
+    ThreadData &data_;
+    size_t in_flight_ = 0;
+  };
+
   // search on disk-based quantized graph
   void disk_search_qg(const float *ALAYA_RESTRICT query,
                       uint32_t knn,
@@ -409,6 +450,7 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
     this->thread_data_.wait_for_push_notify();
     data = thread_data_.pop();
   }
+  WorkspaceLease lease(*this, data);
   data.visited_.clear();
   data.search_pool_.clear();
 
@@ -531,8 +573,7 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // Collects completed I/O events and moves nodes from ongoing to prepared queue.
   // Uses non-blocking reader polling to check for completed I/O without waiting.
   auto wait_for_nodes = [&]() {
-    const int ret =
-        aligned_file_reader_->poll_events(data.ctx_, static_cast<int>(cur_beam_size), evts);
+    const int ret = lease.poll(static_cast<int>(cur_beam_size), evts);
 
     // Process each completed I/O event
     for (int i = 0; i < ret; i++) {
@@ -542,6 +583,11 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
             "disk_search_qg: I/O completion id not in ongoing_nodes "
             "(AlignedFileReader::poll_events returned an unexpected id)");
       }
+      if (evts[i].result != static_cast<int64_t>(page_size_)) {
+        throw std::runtime_error("disk_search_qg: short/failed read of node " +
+                                 std::to_string(id) + ", result=" +
+                                 std::to_string(evts[i].result));
+      }
       // Move from ongoing to prepared queue
       prepared_nodes.emplace_back(id, ongoing_nodes[id]);
       ongoing_nodes.erase(id);
@@ -607,7 +653,7 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
     if (!frontier_read_reqs.empty()) {
       n_hops++;  // Count as one I/O round
       auto submit_start = std::chrono::high_resolution_clock::now();
-      n_ops = aligned_file_reader_->submit_reqs(frontier_read_reqs, data.ctx_);
+      n_ops = lease.submit(frontier_read_reqs);
       io_num += n_ops;
       auto submit_end = std::chrono::high_resolution_clock::now();
       submit_time +=
@@ -675,10 +721,6 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // ==================== Copy Results and Cleanup ====================
   // Copy the k nearest neighbor IDs from result pool to output array
   res_pool.copy_results(results);
-
-  // Return thread-local data to the concurrent queue for reuse by other threads
-  thread_data_.push(data);
-  thread_data_.push_notify_all();
 }
 
 // scan a data row (including data vec and quantization codes for its neighbors)
-- 
2.43.0


From 4b59beab82c85074f4665a76df08faa0ab85cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 44/51] fix: drop LASER's read counter, which concurrent
 searches raced on and nothing used

---
 include/index/graph/laser/qg/qg.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index 773e0a9..fe7927f 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -127,7 +127,6 @@ class QuantizedGraph {
   float total_io_time_ = 0;
   float total_io_time1_ = 0;
   int64_t total_cpu_time_ = 0;
-  float total_read_num_ = 0;
   float total_iter_num_ = 0;
   float total_cache_num_ = 0;
   int64_t total_ks_time_ = 0;
@@ -645,7 +644,6 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
         // Create aligned read request (page-aligned for direct I/O)
         frontier_read_reqs.emplace_back(get_page_offset(cur_node), page_size_, cur_node, slot);
       }
-      total_read_num_++;
     }
 
     // -------------------- Submit Async I/O Requests --------------------
-- 
2.43.0


From 8eb1f2338bdfcc6fdcd2affddb8367867fd7b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 45/51] fix: LASER workspace setup and batch_search report a
 failure instead of terminating or hanging later searches

---
 include/index/disk/laser_segment_searcher.hpp |  1 +
 include/index/graph/laser/qg/qg.hpp           | 88 +++++++++++--------
 2 files changed, 53 insertions(+), 36 deletions(-)

diff --git a/include/index/disk/laser_segment_searcher.hpp b/include/index/disk/laser_segment_searcher.hpp
index 457e5cf..8d150be 100644
--- a/include/index/disk/laser_segment_searcher.hpp
+++ b/include/index/disk/laser_segment_searcher.hpp
@@ -322,6 +322,7 @@ class LaserSegmentSearcher : public SegmentSearcher {
         static_cast<int>(opts.beam_width),
     };
     if (requested != last_set_params_) {
+      last_set_params_ = LastSetParams{0, 0, 0};  // nothing is prepared if this fails
       apply_set_params(requested);
       last_set_params_ = requested;
     }
diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index fe7927f..db0afde 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -7,6 +7,7 @@
 #include <omp.h>
 
 #include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <cfloat>
 #include <chrono>
@@ -15,6 +16,7 @@
 #include <cstdint>
 #include <cstring>
 #include <deque>
+#include <exception>
 #include <filesystem>  // NOLINT(build/c++17)
 #include <fstream>
 #include <iomanip>
@@ -136,6 +138,7 @@ class QuantizedGraph {
   std::vector<PID> mem_graph_enter_points_;
 
   size_t nthreads_ = 1;
+  bool has_workspace_ = false;  // set_params()/load_disk_index() has prepared workspaces
 
   /*
    * Position of different data in each row
@@ -270,6 +273,7 @@ class QuantizedGraph {
                     size_t num_queries);
 
   void destroy_thread_data() {
+    has_workspace_ = false;
     while (thread_data_.size() > 0) {
       ThreadData data = thread_data_.pop();
       while (data.sector_scratch_ == nullptr) {
@@ -351,6 +355,10 @@ inline QuantizedGraph::QuantizedGraph(size_t num,
 inline QuantizedGraph::~QuantizedGraph() { destroy_thread_data(); }
 
 inline void QuantizedGraph::set_params(size_t ef_search, size_t num_threads, int beam_width) {
+  if (num_threads == 0 || beam_width <= 0) {
+    throw std::invalid_argument(
+        "QuantizedGraph::set_params: num_threads and beam_width must be positive");
+  }
   this->nthreads_ = num_threads;
   this->max_beam_width_ = beam_width;
   this->ef_search_ = ef_search;
@@ -358,28 +366,7 @@ inline void QuantizedGraph::set_params(size_t ef_search, size_t num_threads, int
   if (index_file_name_ == "") {
     throw std::logic_error("QuantizedGraph::set_params: call load_disk_index() first");
   }
-  aligned_file_reader_->open(index_file_name_);
-
-  const int nthreads_signed = static_cast<int>(nthreads_);
-#pragma omp parallel for num_threads(nthreads_signed)
-  for (int thread = 0; thread < nthreads_signed; thread++) {
-#pragma omp critical
-    {
-      this->aligned_file_reader_->register_thread();
-      ThreadData data;
-      data.ctx_ = aligned_file_reader_->get_ctx();
-      data.search_pool_.resize(ef_search_);
-      data.visited_ =
-          HashBasedBooleanSet(std::min(this->num_points_ / 10, ef_search_ * ef_search_));
-      data.sector_scratch_ = reinterpret_cast<char *>(
-          memory::align_allocate<kSectorLen>(2 * max_beam_width_ * page_size_));
-      data.pca_query_scratch_storage_ =
-          std::make_shared<std::vector<float>>(dimension_ + residual_dimension_);
-      data.pca_query_scratch_ =
-          data.pca_query_scratch_storage_->data();  // Allocate PCA query buffer
-      this->thread_data_.push(data);
-    }
-  }
+  init_workspace();
 }
 
 /*
@@ -397,10 +384,26 @@ inline void QuantizedGraph::batch_search(const float *ALAYA_RESTRICT query,
                                          size_t num_queries) {
   const int64_t num_queries_signed = static_cast<int64_t>(num_queries);
   const int nthreads_signed = static_cast<int>(nthreads_);
+  std::exception_ptr error;
+  std::atomic<bool> failed{false};
 #pragma omp parallel for schedule(dynamic) num_threads(nthreads_signed)
   for (int64_t ii = 0; ii < num_queries_signed; ++ii) {
+    if (failed.load(std::memory_order_relaxed)) {
+      continue;
+    }
     const size_t i = static_cast<size_t>(ii);
-    disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    try {
+      disk_search_qg(query + i * (dimension_ + residual_dimension_), knn, results + i * knn);
+    } catch (...) {  // must not leave the parallel region
+#pragma omp critical
+      {
+        error = std::current_exception();
+        failed.store(true, std::memory_order_relaxed);
+      }
+    }
+  }
+  if (error) {
+    std::rethrow_exception(error);
   }
 }
 
@@ -444,6 +447,9 @@ inline void QuantizedGraph::disk_search_qg(const float *ALAYA_RESTRICT query,
   // ==================== Thread-local Data Acquisition ====================
   // Acquire thread-local workspace from the concurrent queue.
   // This includes: visited set, search buffer, AIO context, and scratch memory.
+  if (!has_workspace_) {
+    throw std::logic_error("QuantizedGraph::search: no workspace; call set_params() first");
+  }
   ThreadData data = thread_data_.pop();
   while (data.sector_scratch_ == nullptr) {
     this->thread_data_.wait_for_push_notify();
@@ -773,25 +779,35 @@ inline void QuantizedGraph::init_workspace() {
   aligned_file_reader_->open(index_file_name_);
 
   const int nthreads_signed = static_cast<int>(nthreads_);
+  std::exception_ptr error;
 #pragma omp parallel for num_threads(nthreads_signed)
   for (int thread = 0; thread < nthreads_signed; thread++) {
 #pragma omp critical
     {
-      this->aligned_file_reader_->register_thread();
-      ThreadData data;
-      data.ctx_ = aligned_file_reader_->get_ctx();
-      data.search_pool_.resize(ef_search_);
-      data.visited_ =
-          HashBasedBooleanSet(std::min(this->num_points_ / 10, ef_search_ * ef_search_));
-      data.sector_scratch_ = reinterpret_cast<char *>(
-          memory::align_allocate<kSectorLen>(2 * max_beam_width_ * page_size_));
-      data.pca_query_scratch_storage_ =
-          std::make_shared<std::vector<float>>(dimension_ + residual_dimension_);
-      data.pca_query_scratch_ =
-          data.pca_query_scratch_storage_->data();  // Allocate PCA query buffer
-      this->thread_data_.push(data);
+      try {
+        this->aligned_file_reader_->register_thread();
+        ThreadData data;
+        data.ctx_ = aligned_file_reader_->get_ctx();
+        data.search_pool_.resize(ef_search_);
+        data.visited_ =
+            HashBasedBooleanSet(std::min(this->num_points_ / 10, ef_search_ * ef_search_));
+        data.pca_query_scratch_storage_ =
+            std::make_shared<std::vector<float>>(dimension_ + residual_dimension_);
+        data.pca_query_scratch_ =
+            data.pca_query_scratch_storage_->data();  // Allocate PCA query buffer
+        data.sector_scratch_ = reinterpret_cast<char *>(
+            memory::align_allocate<kSectorLen>(2 * max_beam_width_ * page_size_));
+        this->thread_data_.push(data);
+      } catch (...) {
+        error = std::current_exception();
+      }
     }
   }
+  if (error) {
+    destroy_thread_data();
+    std::rethrow_exception(error);
+  }
+  has_workspace_ = true;
 }
 
 inline void QuantizedGraph::update_qg_out_of_memory(
-- 
2.43.0


From 8fca6700ba6ecfb18537edce3b78bab0d99356a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 46/51] fix: loading a LASER index reports files it cannot read
 instead of searching with what it got

---
 include/index/graph/laser/qg/qg.hpp           | 48 ++++++++++++++-----
 .../index/graph/laser/utils/pca_transform.hpp |  8 ++++
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index db0afde..d30582a 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -82,6 +82,22 @@ struct ClusterStats {
 
 constexpr size_t kSectorLen = 4096;
 
+/// Opens @p path for reading, or throws.
+inline auto open_input(const std::string &path) -> std::ifstream {
+  std::ifstream input(path, std::ios::binary);
+  if (!input.is_open()) {
+    throw std::runtime_error("QuantizedGraph: cannot open " + path);
+  }
+  return input;
+}
+
+/// Throws if anything read from @p input so far was missing or could not be read.
+inline void check_input(const std::ifstream &input, const std::string &path) {
+  if (!input) {
+    throw std::runtime_error("QuantizedGraph: cannot read " + path);
+  }
+}
+
 class QuantizedGraph {
   friend class QGBuilder;
 
@@ -908,11 +924,11 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
     throw std::runtime_error("QuantizedGraph::load_disk_index: file not found: " +
                              index_file_name_);
   }
-  std::ifstream input(index_file_name_, std::ios::binary);
-  assert(input.is_open());
+  std::ifstream input = open_input(index_file_name_);
 
   std::vector<uint64_t> metas(kSectorLen / sizeof(uint64_t), 0);
   input.read(reinterpret_cast<char *>(metas.data()), kSectorLen);
+  check_input(input, index_file_name_);
 
   assert(metas[0] == num_points_);
   assert(metas[1] == dimension_);
@@ -923,9 +939,9 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
   entry_point_ = metas[2];
 
   std::string rotator_path = std::string(index_file_name_) + "_rotator";
-  std::ifstream rotator_input(rotator_path, std::ios::binary);
-  assert(rotator_input.is_open());
+  std::ifstream rotator_input = open_input(rotator_path);
   rotator_.load(rotator_input);
+  check_input(rotator_input, rotator_path);
 
   init_workspace();
 
@@ -934,7 +950,9 @@ inline void QuantizedGraph::load_disk_index(const char *filename, float search_D
   // Load PCA parameters for online query transformation
   std::string pca_path = std::string(filename) + "_pca.bin";
   if (std::filesystem::exists(pca_path)) {
-    pca_transform_.load(pca_path);
+    if (!pca_transform_.load(pca_path)) {
+      throw std::runtime_error("QuantizedGraph::load_disk_index: cannot read " + pca_path);
+    }
   } else {
     std::cerr << "Warning: PCA file not found: " << pca_path << std::endl;
   }
@@ -964,22 +982,23 @@ inline void QuantizedGraph::load_medoids(const char *filename) {
     return;
   }
 
-  std::ifstream medoid_input(medoids_indices_file, std::ios::binary);
-  assert(medoid_input.is_open());
+  std::ifstream medoid_input = open_input(medoids_indices_file);
   int medoid_num;
   int tmp;
   medoid_input.read(reinterpret_cast<char *>(&medoid_num), sizeof(int));
   medoid_input.read(reinterpret_cast<char *>(&tmp), sizeof(int));
+  check_input(medoid_input, medoids_indices_file);
   medoids_.resize(static_cast<uint64_t>(medoid_num) * static_cast<uint64_t>(tmp));
   medoid_input.read(reinterpret_cast<char *>(medoids_.data()),
                     static_cast<std::streamsize>(sizeof(int) * medoid_num * tmp));
+  check_input(medoid_input, medoids_indices_file);
   medoid_input.close();
 
-  std::ifstream mediod_vector_input(medoids_file, std::ios::binary);
-  assert(mediod_vector_input.is_open());
+  std::ifstream mediod_vector_input = open_input(medoids_file);
   int dim = 0;
   mediod_vector_input.read(reinterpret_cast<char *>(&medoid_num), sizeof(int));
   mediod_vector_input.read(reinterpret_cast<char *>(&dim), sizeof(int));
+  check_input(mediod_vector_input, medoids_file);
   if (medoid_num != static_cast<int>(medoids_.size())) {
     throw std::runtime_error(
         "QuantizedGraph::load_medoids: medoid count mismatch between indices and vectors file");
@@ -992,32 +1011,35 @@ inline void QuantizedGraph::load_medoids(const char *filename) {
   mediod_vector_input.read(reinterpret_cast<char *>(medoids_vector_.data()),
                            static_cast<std::streamsize>(sizeof(float) * medoid_num *
                                                         (dimension_ + residual_dimension_)));
+  check_input(mediod_vector_input, medoids_file);
   mediod_vector_input.close();
 }
 
 inline void QuantizedGraph::load_cache(std::string &cache_ids_file,
                                        std::string &cache_nodes_file,
                                        size_t online_cache_num) {
-  std::ifstream cache_ids_input(cache_ids_file, std::ios::binary);
-  std::ifstream cache_vectors_input(cache_nodes_file, std::ios::binary);
-  assert(cache_ids_input.is_open());
-  assert(cache_vectors_input.is_open());
+  std::ifstream cache_ids_input = open_input(cache_ids_file);
+  std::ifstream cache_vectors_input = open_input(cache_nodes_file);
   size_t cache_ids_num;
   size_t cache_nodes_num;
   size_t tmp_node_len;
   cache_ids_input.read(reinterpret_cast<char *>(&cache_ids_num), sizeof(size_t));
   cache_vectors_input.read(reinterpret_cast<char *>(&cache_nodes_num), sizeof(size_t));
   cache_vectors_input.read(reinterpret_cast<char *>(&tmp_node_len), sizeof(size_t));
+  check_input(cache_ids_input, cache_ids_file);
+  check_input(cache_vectors_input, cache_nodes_file);
   online_cache_num = std::min(online_cache_num, std::min(cache_ids_num, cache_nodes_num));
   std::cout << "online_cache_num: " << online_cache_num << std::endl;
   cache_ids_.resize(online_cache_num);
   cache_ids_input.read(reinterpret_cast<char *>(cache_ids_.data()),
                        static_cast<std::streamsize>(sizeof(PID) * online_cache_num));
+  check_input(cache_ids_input, cache_ids_file);
   assert(tmp_node_len == node_len_);
   cache_nodes_.resize(online_cache_num * node_len_);
   cache_vectors_input.read(reinterpret_cast<char *>(cache_nodes_.data()),
                            static_cast<std::streamsize>(sizeof(char) * online_cache_num *
                                                         node_len_));
+  check_input(cache_vectors_input, cache_nodes_file);
   for (unsigned i = 0; i < cache_ids_.size(); i++) {
     PID cur_id = cache_ids_[i];
     caches_[cur_id] = cache_nodes_.data() + i * node_len_;
diff --git a/include/index/graph/laser/utils/pca_transform.hpp b/include/index/graph/laser/utils/pca_transform.hpp
index 389a2c5..f0ee3a1 100644
--- a/include/index/graph/laser/utils/pca_transform.hpp
+++ b/include/index/graph/laser/utils/pca_transform.hpp
@@ -103,6 +103,10 @@ class PCATransform {
     // Read dimension
     uint64_t dim;
     input.read(reinterpret_cast<char *>(&dim), sizeof(uint64_t));
+    if (!input) {
+      std::cerr << "PCATransform: Cannot read file " << filename << std::endl;
+      return false;
+    }
     input_dim_ = static_cast<size_t>(dim);
     output_dim_ = input_dim_;  // Orthogonal transformation
 
@@ -117,6 +121,10 @@ class PCATransform {
     // Read components matrix (row-major in file)
     input.read(reinterpret_cast<char *>(pca_matrix_.data()),
                static_cast<std::streamsize>(sizeof(float) * output_dim_ * input_dim_));
+    if (!input) {
+      std::cerr << "PCATransform: Cannot read file " << filename << std::endl;
+      return false;
+    }
 
     input.close();
     loaded_ = true;
-- 
2.43.0


From 473fe4a95f86569c71de94f1093bd7d279c7615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 47/51] fix: a LASER search that meets fewer nodes than asked
 for no longer fills its results with record 0

---
 include/index/disk/laser_segment_searcher.hpp | 3 +++
 include/index/graph/laser/qg/qg.hpp           | 3 ++-
 include/index/graph/laser/utils/buffer.hpp    | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/index/disk/laser_segment_searcher.hpp b/include/index/disk/laser_segment_searcher.hpp
index 8d150be..2c38001 100644
--- a/include/index/disk/laser_segment_searcher.hpp
+++ b/include/index/disk/laser_segment_searcher.hpp
@@ -334,6 +334,9 @@ class LaserSegmentSearcher : public SegmentSearcher {
     std::vector<DiskSearchHit> out;
     out.reserve(effective_top_k);
     for (uint32_t pid : pid_buf) {
+      if (pid == alaya::laser::kPidMax) {
+        break;  // the search met fewer records than were asked for
+      }
       if (pid >= manifest_.count) {
         throw std::runtime_error("LaserSegmentSearcher: QuantizedGraph returned PID " +
                                  std::to_string(pid) + " outside segment count " +
diff --git a/include/index/graph/laser/qg/qg.hpp b/include/index/graph/laser/qg/qg.hpp
index d30582a..7e9ba12 100644
--- a/include/index/graph/laser/qg/qg.hpp
+++ b/include/index/graph/laser/qg/qg.hpp
@@ -450,7 +450,8 @@ inline void QuantizedGraph::batch_search(const float *ALAYA_RESTRICT query,
  *                  elements are the main vector, and the remaining are residual components.
  * @param knn       Number of nearest neighbors to retrieve.
  * @param results   Output array to store the IDs of k nearest neighbors. Must have
- *                  space for at least knn uint32_t elements.
+ *                  space for at least knn uint32_t elements; filled up with kPidMax when the
+ *                  search met fewer nodes.
  *
  * @note This function is thread-safe. Each thread acquires its own ThreadData from a
  *       concurrent queue, which includes scratch buffers and AIO context.
diff --git a/include/index/graph/laser/utils/buffer.hpp b/include/index/graph/laser/utils/buffer.hpp
index de305be..ff8d628 100644
--- a/include/index/graph/laser/utils/buffer.hpp
+++ b/include/index/graph/laser/utils/buffer.hpp
@@ -104,7 +104,7 @@ class SearchBuffer {
 class ResultBuffer {
  public:
   explicit ResultBuffer(size_t capacity)
-      : ids_(capacity + 1), distances_(capacity + 1), capacity_(capacity) {}
+      : ids_(capacity + 1, kPidMax), distances_(capacity + 1), capacity_(capacity) {}
 
   void insert(PID data_id, float dist) {
     if (size_ == capacity_ && dist > distances_[size_ - 1]) {
@@ -122,6 +122,7 @@ class ResultBuffer {
 
   const std::vector<PID, memory::AlignedAllocator<PID>> &ids() { return ids_; }
 
+  // entries beyond what was found are kPidMax
   void copy_results(PID *knn) const { std::copy(ids_.begin(), ids_.end() - 1, knn); }
 
  private:
-- 
2.43.0


From 9393c897b5493407ac924c42980d2fa733bc627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 48/51] fix: building a LASER index reports I/O failures
 instead of terminating, hanging or leaving a damaged index behind

---
 include/index/graph/laser/qg/qg_builder.hpp | 137 +++++++++++++++-----
 1 file changed, 102 insertions(+), 35 deletions(-)

diff --git a/include/index/graph/laser/qg/qg_builder.hpp b/include/index/graph/laser/qg/qg_builder.hpp
index 332cd34..c14938f 100644
--- a/include/index/graph/laser/qg/qg_builder.hpp
+++ b/include/index/graph/laser/qg/qg_builder.hpp
@@ -5,17 +5,24 @@
 #pragma once
 
 #include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <exception>
+#include <fstream>
 #include <functional>
 #include <iomanip>
 #include <iostream>
+#include <memory>
 #include <mutex>
 #include <numeric>
 #include <random>
+#include <stdexcept>
+#include <string>
+#include <unordered_map>
 #include <unordered_set>
 #include <utility>
 #include <vector>
@@ -98,6 +105,47 @@ class QGBuilder {
   void graph_refine();
   void iter(bool);
 
+  /// Opens @p path for writing. A write that fails, also when it only shows on close,
+  /// throws.
+  static auto create_output(const std::string &path) -> std::ofstream {
+    std::ofstream output(path, std::ios::binary);
+    if (!output.is_open()) {
+      throw std::runtime_error("QGBuilder: cannot create " + path);
+    }
+    output.exceptions(std::ios::badbit | std::ios::failbit);
+    return output;
+  }
+
+  /// Keeps the first exception of the threads of a parallel region, which none may leave.
+  class FirstFailure {
+   public:
+    template <class F>
+    void guard(F &&work) {
+      try {
+        work();
+      } catch (...) {
+        std::lock_guard<std::mutex> lock(mutex_);
+        if (first_ == nullptr) {
+          first_ = std::current_exception();
+        }
+        failed_.store(true, std::memory_order_release);
+      }
+    }
+
+    [[nodiscard]] bool failed() const { return failed_.load(std::memory_order_acquire); }
+
+    void rethrow() const {
+      if (first_ != nullptr) {
+        std::rethrow_exception(first_);
+      }
+    }
+
+   private:
+    std::mutex mutex_;
+    std::exception_ptr first_;
+    std::atomic<bool> failed_{false};
+  };
+
  public:
   explicit QGBuilder(QuantizedGraph &index, uint32_t ef_build, size_t num_threads)
       : qg_{index},
@@ -174,8 +222,7 @@ class QGBuilder {
     std::string data_path = std::string(filename) + "_pca_base.fbin";
     std::string tmp_path = std::string(filename) + "_tmp.fbin";
 
-    std::ofstream output(index_path, std::ios::binary);
-    assert(output.is_open());
+    std::ofstream output = create_output(index_path);
 
     // ==================== Write Index Header (Metadata Sector) ====================
     // The first sector (4KB) stores index metadata for validation during loading.
@@ -194,13 +241,23 @@ class QGBuilder {
 
     // ==================== PHASE 1: Create Sector-Aligned Temporary Vector File
     // ==================== Why sector alignment? Linux O_DIRECT requires 4KB-aligned reads.
-    std::ofstream tmp_output(tmp_path, std::ios::binary);
-    assert(tmp_output.is_open());
+    // The temporary file goes however this function ends.
+    struct TmpFile {
+      const std::string &path;
+      ~TmpFile() {
+        if (std::remove(path.c_str()) != 0) {
+          std::perror("Error deleting temporary file");
+        }
+      }
+    };
+    std::ofstream tmp_output = create_output(tmp_path);
+    std::unique_ptr<TmpFile> tmp_file(new TmpFile{tmp_path});
 
-    std::ifstream vector_input(data_path, std::ios::binary);
+    std::ifstream vector_input = open_input(data_path);
     int n, d;
     vector_input.read(reinterpret_cast<char *>(&n), sizeof(int));
     vector_input.read(reinterpret_cast<char *>(&d), sizeof(int));
+    check_input(vector_input, data_path);
     assert(d == (qg_.dimension_ + qg_.residual_dimension_));
 
     // Round up vector size to sector boundary for O_DIRECT compatibility
@@ -230,6 +287,7 @@ class QGBuilder {
       // Zero-fill buffer to ensure clean padding bytes
       std::memset(buffer.data(), 0, buffer.size());
       vector_input.read(reinterpret_cast<char *>(buffer.data()), d * sizeof(float));
+      check_input(vector_input, data_path);
       tmp_output.write(buffer.data(), static_cast<std::streamsize>(vector_tmp_page_size));
     }
 
@@ -243,21 +301,26 @@ class QGBuilder {
 
     // Create a bounded pool of thread-local scratch buffers.
     ConcurrentQueue<ThreadData> thread_data;
+    FirstFailure failure;
+    size_t num_scratch = 0;
     const int num_threads_signed = static_cast<int>(num_threads_);
 #pragma omp parallel for num_threads(num_threads_signed)
     for (int thread = 0; thread < num_threads_signed; thread++) {
 #pragma omp critical
       {
-        vector_reader->register_thread();
-        ThreadData data;
-        data.ctx_ = vector_reader->get_ctx();
-        // Scratch for building one node's quantized representation
-        data.cur_page_scratch_ =
-            reinterpret_cast<char *>(memory::align_allocate<kSectorLen>(qg_.page_size_));
-        // Scratch for reading neighbor vectors (degree * vector_size)
-        data.neighbor_vector_scratch_ = reinterpret_cast<char *>(
-            memory::align_allocate<kSectorLen>(qg_.degree_bound_ * vector_tmp_page_size));
-        thread_data.push(data);
+        failure.guard([&] {
+          vector_reader->register_thread();
+          ThreadData data;
+          data.ctx_ = vector_reader->get_ctx();
+          // Scratch for building one node's quantized representation
+          data.cur_page_scratch_ =
+              reinterpret_cast<char *>(memory::align_allocate<kSectorLen>(qg_.page_size_));
+          // Scratch for reading neighbor vectors (degree * vector_size)
+          data.neighbor_vector_scratch_ = reinterpret_cast<char *>(
+              memory::align_allocate<kSectorLen>(qg_.degree_bound_ * vector_tmp_page_size));
+          thread_data.push(data);
+          ++num_scratch;
+        });
       }
     }
 
@@ -270,6 +333,9 @@ class QGBuilder {
     const int64_t qg_num_points_signed = static_cast<int64_t>(qg_.num_points_);
 #pragma omp parallel for schedule(dynamic)
     for (int64_t ii = 0; ii < qg_num_points_signed; ++ii) {
+      if (failure.failed()) {
+        continue;  // nothing to wait for, and the rest is not needed any more
+      }
       const size_t i = static_cast<size_t>(ii);
       // Progress bar
       if (i % 10000 == 0) {
@@ -299,11 +365,16 @@ class QGBuilder {
       // Core processing: read vectors from disk, compute RaBitQ codes, prepare node data
       // This function reads the node's vector and all neighbor vectors via async I/O,
       // then computes quantization codes without holding vectors in memory permanently
-      qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+      failure.guard([&] {
+        qg_.update_qg_out_of_memory(i, new_neighbors_[i], *vector_reader, data);
+      });
 
       // Pack completed node bytes into the read-path page layout.
 #pragma omp critical
-      {
+      failure.guard([&] {
+        if (failure.failed()) {
+          return;
+        }
         const size_t page_index = i / qg_.node_per_page_;
         const size_t slot = i % qg_.node_per_page_;
         auto assembler =
@@ -322,16 +393,13 @@ class QGBuilder {
           assembler->second.flush(output, page_index);
           page_assemblers.erase(assembler);
         }
-      }
+      });
 
       // Return scratch buffer to pool for reuse by other threads
       thread_data.push(data);
       thread_data.push_notify_all();
     }
-    for (auto &[page_index, assembler] : page_assemblers) {
-      assembler.flush(output, page_index);
-    }
-    for (size_t thread = 0; thread < num_threads_; ++thread) {
+    for (size_t thread = 0; thread < num_scratch; ++thread) {
       ThreadData data = thread_data.pop();
       while (data.cur_page_scratch_ == nullptr) {
         thread_data.wait_for_push_notify();
@@ -342,23 +410,22 @@ class QGBuilder {
     }
     vector_reader->deregister_all_threads();
     vector_reader->close();
+    failure.rethrow();
+    for (auto &[page_index, assembler] : page_assemblers) {
+      assembler.flush(output, page_index);
+    }
     output.close();
 
     // ==================== Save Rotation Matrix ====================
     // The Fast Hadamard Transform rotation matrix is small and saved separately
     std::string rotator_path = index_path + "_rotator";
-    std::ofstream rotator_output(rotator_path, std::ios::binary);
-    assert(rotator_output.is_open());
+    std::ofstream rotator_output = create_output(rotator_path);
     qg_.rotator_.save(rotator_output);
     rotator_output.close();
 
     // ==================== Cleanup Temporary File ====================
     // The sector-aligned temporary file is no longer needed
-    if (std::remove(tmp_path.c_str()) != 0) {
-      std::perror("Error deleting temporary file");
-    } else {
-      std::cout << "\nTemporary file deleted\n";
-    }
+    tmp_file.reset();
 
     // ==================== PHASE 3: Build Cache File ====================
     // Pre-extract high in-degree nodes to a separate file for fast loading at search time.
@@ -373,22 +440,23 @@ class QGBuilder {
     std::string cache_nodes_file = index_path + "_cache_nodes";
 
     // Write cache node IDs
-    std::ofstream cache_ids_output(cache_ids_file, std::ios::binary);
+    std::ofstream cache_ids_output = create_output(cache_ids_file);
     cache_ids_output.write(reinterpret_cast<const char *>(&cache_num), sizeof(size_t));
     cache_ids_output.write(reinterpret_cast<const char *>(qg_.cache_ids_.data()),
                            static_cast<std::streamsize>(sizeof(PID) * cache_num));
     cache_ids_output.close();
 
     // Write cache node data (extracted from the completed index)
-    std::ofstream cache_vectors_output(cache_nodes_file, std::ios::binary);
-    assert(cache_vectors_output.is_open());
+    std::ofstream cache_vectors_output = create_output(cache_nodes_file);
     cache_vectors_output.write(reinterpret_cast<const char *>(&cache_num), sizeof(size_t));
     cache_vectors_output.write(reinterpret_cast<const char *>(&qg_.node_len_), sizeof(size_t));
 
     // Read cache nodes in batches to balance I/O efficiency and memory usage
     size_t batch_size = 1024;
-    char *cache_buffer =
-        reinterpret_cast<char *>(memory::align_allocate<kSectorLen>(batch_size * qg_.page_size_));
+    std::unique_ptr<char, void (*)(void *)> cache_memory(
+        reinterpret_cast<char *>(memory::align_allocate<kSectorLen>(batch_size * qg_.page_size_)),
+        [](void *memory) { memory::align_free(memory); });
+    char *cache_buffer = cache_memory.get();
     auto cache_reader = make_aligned_file_reader();
     cache_reader->open(index_path);
     cache_reader->register_thread();
@@ -420,7 +488,6 @@ class QGBuilder {
     cache_vectors_output.close();
     cache_reader->deregister_all_threads();
     cache_reader->close();
-    memory::align_free(cache_buffer);
     std::cout << "Done. \n";
   }
 };
-- 
2.43.0


From 5c92ba65f9b19faaee655e8d2351ead41f8bbfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:25 +0000
Subject: [PATCH 49/51] fix: building a Vamana graph file reports reads that
 fall short and writes that fail when a file is closed

---
 include/index/graph/vamana/build_dispatch.hpp |  4 ++++
 include/index/graph/vamana/shard_assigner.hpp |  3 +++
 include/index/graph/vamana/shard_merger.hpp   | 13 ++++++++++++-
 include/index/graph/vamana/vamana_writer.hpp  |  2 +-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/index/graph/vamana/build_dispatch.hpp b/include/index/graph/vamana/build_dispatch.hpp
index 986b56e..1d66bf9 100644
--- a/include/index/graph/vamana/build_dispatch.hpp
+++ b/include/index/graph/vamana/build_dispatch.hpp
@@ -196,6 +196,9 @@ inline void gen_random_slice(const std::string &path,
   for (uint32_t i = 0; i < num; ++i) {
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(dim) * sizeof(float));
+    if (!in.good()) {
+      throw std::runtime_error("gen_random_slice: short read on " + path);
+    }
     if (u01(rng) < rate) {
       out.insert(out.end(), buf.begin(), buf.end());
       ++out_num;
@@ -332,6 +335,7 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
     cf.write(reinterpret_cast<const char *>(pivots.data()),
              static_cast<std::streamsize>(num_parts) * static_cast<std::streamsize>(dim) *
                  sizeof(float));
+    cf.close();
     if (!cf.good()) {
       throw std::runtime_error("write error on centroids file: " + centroids_path.string());
     }
diff --git a/include/index/graph/vamana/shard_assigner.hpp b/include/index/graph/vamana/shard_assigner.hpp
index 1c06160..a0948d0 100644
--- a/include/index/graph/vamana/shard_assigner.hpp
+++ b/include/index/graph/vamana/shard_assigner.hpp
@@ -87,6 +87,9 @@ struct ShardOutputStreams {
     idmap_os.seekp(0, std::ios::beg);
     idmap_os.write(reinterpret_cast<const char *>(&count), sizeof(uint32_t));
     idmap_os.close();
+    if (!data_os.good() || !idmap_os.good()) {
+      throw std::runtime_error("shard_assigner: write error on a shard file");
+    }
   }
 };
 
diff --git a/include/index/graph/vamana/shard_merger.hpp b/include/index/graph/vamana/shard_merger.hpp
index 9ba43e3..bfed8a4 100644
--- a/include/index/graph/vamana/shard_merger.hpp
+++ b/include/index/graph/vamana/shard_merger.hpp
@@ -87,6 +87,9 @@ inline uint32_t compute_medoid_streaming(const std::filesystem::path &fbin_path,
     const size_t cur = std::min(block_size, N - read_so_far);
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(cur) * dim * sizeof(float));
+    if (!in.good()) {
+      throw std::runtime_error("compute_medoid_streaming: short read on " + fbin_path.string());
+    }
     for (size_t p = 0; p < cur; ++p) {
       const float *v = buf.data() + p * dim;
       for (uint32_t d = 0; d < dim; ++d) {
@@ -111,6 +114,9 @@ inline uint32_t compute_medoid_streaming(const std::filesystem::path &fbin_path,
     const size_t cur = std::min(block_size, N - read_so_far);
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(cur) * dim * sizeof(float));
+    if (!in.good()) {
+      throw std::runtime_error("compute_medoid_streaming: short read on " + fbin_path.string());
+    }
 
     double local_best = std::numeric_limits<double>::max();
     uint32_t local_id = 0;
@@ -303,6 +309,10 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
         std::vector<uint32_t> local_nbrs(k);
         readers[s].read(reinterpret_cast<char *>(local_nbrs.data()),
                         static_cast<std::streamsize>(k) * sizeof(uint32_t));
+        if (!readers[s].good()) {
+          throw std::runtime_error("merge_shards: read error on shard " + std::to_string(s) +
+                                   " at shard-local id " + std::to_string(shard_cursor[s]));
+        }
         for (uint32_t lnb : local_nbrs) {
           if (lnb >= idmaps[s].size()) {
             throw std::runtime_error("merge_shards: out-of-range shard-local neighbor " +
@@ -338,10 +348,10 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
   // Patch the expected_file_size header.
   out.seekp(0, std::ios::beg);
   out.write(reinterpret_cast<const char *>(&expected_file_size), sizeof(uint64_t));
+  out.close();
   if (!out.good()) {
     throw std::runtime_error("merge_shards: write error on output");
   }
-  out.close();
 
   // DiskANN-format medoids file: uint32 nshards, uint32 1 (stride),
   // nshards × uint32 global_medoid. Path = `<output>_medoids.bin`,
@@ -359,6 +369,7 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
     mf.write(reinterpret_cast<const char *>(&one_stride), sizeof(uint32_t));
     mf.write(reinterpret_cast<const char *>(shard_medoids_global.data()),
              static_cast<std::streamsize>(nshards) * sizeof(uint32_t));
+    mf.close();
     if (!mf.good()) {
       throw std::runtime_error("merge_shards: write error on " + medoids_path.string());
     }
diff --git a/include/index/graph/vamana/vamana_writer.hpp b/include/index/graph/vamana/vamana_writer.hpp
index 565f1a9..6cf6db5 100644
--- a/include/index/graph/vamana/vamana_writer.hpp
+++ b/include/index/graph/vamana/vamana_writer.hpp
@@ -65,10 +65,10 @@ inline void save_graph(const std::vector<std::vector<uint32_t>> &graph,
   // Rewrite the expected_file_size at offset 0 now that we know the total.
   out.seekp(0, std::ios::beg);
   out.write(reinterpret_cast<const char *>(&index_size), sizeof(uint64_t));
+  out.close();
   if (!out.good()) {
     throw std::runtime_error("save_graph: write error on " + path.string());
   }
-  out.close();
 }
 
 }  // namespace alaya::vamana
-- 
2.43.0


From f60f0cd23223f797baeba5399c020747c2faaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:25 +0000
Subject: [PATCH 50/51] fix: a sharded Vamana build leaves out shards without
 points instead of failing on them

---
 include/index/graph/vamana/build_dispatch.hpp | 62 ++++++++++++-------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/include/index/graph/vamana/build_dispatch.hpp b/include/index/graph/vamana/build_dispatch.hpp
index 1d66bf9..d343bf9 100644
--- a/include/index/graph/vamana/build_dispatch.hpp
+++ b/include/index/graph/vamana/build_dispatch.hpp
@@ -314,6 +314,36 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
                                                                               pivots);
   LOG_INFO("partition path: frozen num_parts={}", num_parts);
 
+  // Free sample memory before streaming assignment (which may allocate a
+  // 512MB read buffer).
+  train_sample = {};
+  test_sample = {};
+
+  alaya::Timer assign_timer;
+  auto assign = alaya::vamana::shard_data_by_centroids(data_path,
+                                                       pivots.data(),
+                                                       num_parts,
+                                                       bp.k_base,
+                                                       shard_prefix);
+  LOG_INFO("shard assignment done in {}s", assign_timer.elapsed_s());
+
+  // A shard that is no point's nearest or second nearest (equal points, a cluster that ran empty)
+  // has nothing to build: leave it and its pivot out.
+  std::vector<size_t> live_parts;
+  for (size_t s = 0; s < num_parts; ++s) {
+    if (assign.counts[s] == 0) {
+      LOG_WARN("partition path: shard {} is empty, skipped", s);
+      continue;
+    }
+    if (live_parts.size() != s) {
+      std::copy_n(pivots.begin() + static_cast<std::ptrdiff_t>(s * dim),
+                  dim,
+                  pivots.begin() + static_cast<std::ptrdiff_t>(live_parts.size() * dim));
+    }
+    live_parts.push_back(s);
+  }
+  const size_t num_live = live_parts.size();
+
   // Write pivots alongside the merged output. DiskANN's
   // `build_merged_vamana_index` (disk_utils.cpp:694) renames the pivot file
   // from `<tempFiles>_centroids.bin` into `<centroids_file>`; we write
@@ -328,35 +358,23 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
     if (!cf.is_open()) {
       throw std::runtime_error("cannot open centroids file: " + centroids_path.string());
     }
-    const int32_t np = static_cast<int32_t>(num_parts);
+    const int32_t np = static_cast<int32_t>(num_live);
     const int32_t dd = static_cast<int32_t>(dim);
     cf.write(reinterpret_cast<const char *>(&np), sizeof(int32_t));
     cf.write(reinterpret_cast<const char *>(&dd), sizeof(int32_t));
     cf.write(reinterpret_cast<const char *>(pivots.data()),
-             static_cast<std::streamsize>(num_parts) * static_cast<std::streamsize>(dim) *
+             static_cast<std::streamsize>(num_live) * static_cast<std::streamsize>(dim) *
                  sizeof(float));
     cf.close();
     if (!cf.good()) {
       throw std::runtime_error("write error on centroids file: " + centroids_path.string());
     }
   }
-  LOG_INFO("wrote centroids: {} ({} × {})", centroids_path.string(), num_parts, dim);
+  LOG_INFO("wrote centroids: {} ({} × {})", centroids_path.string(), num_live, dim);
 
-  // Free sample memory before streaming assignment (which may allocate a
-  // 512MB read buffer).
-  train_sample = {};
-  test_sample = {};
-
-  alaya::Timer assign_timer;
-  auto assign = alaya::vamana::shard_data_by_centroids(data_path,
-                                                       pivots.data(),
-                                                       num_parts,
-                                                       bp.k_base,
-                                                       shard_prefix);
-  LOG_INFO("shard assignment done in {}s", assign_timer.elapsed_s());
-
-  std::vector<std::filesystem::path> shard_graphs(num_parts);
-  for (size_t s = 0; s < num_parts; ++s) {
+  std::vector<std::filesystem::path> shard_graphs;
+  std::vector<std::filesystem::path> idmaps;
+  for (const size_t s : live_parts) {
     alaya::Timer shard_timer;
     LOG_INFO("building shard {}/{}: {} points", s + 1, num_parts, assign.counts[s]);
     std::vector<float> shard_data;
@@ -384,7 +402,8 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
     const std::filesystem::path graph_path =
         work_dir / (std::string("s_subshard-") + std::to_string(s) + "_mem.index");
     alaya::vamana::save_graph(b.graph(), graph_path, shard_R, b.medoid());
-    shard_graphs[s] = graph_path;
+    shard_graphs.push_back(graph_path);
+    idmaps.emplace_back(assign.idmap_paths[s]);
     LOG_INFO("shard {}/{} built + saved in {}s -> {}",
              s + 1,
              num_parts,
@@ -396,11 +415,6 @@ inline void run_partition_merge(const BuildVamanaParams &args, uint32_t num, uin
   const uint32_t global_medoid = alaya::vamana::compute_medoid_streaming(data_path);
   LOG_INFO("global medoid = {} (streaming pass {}s)", global_medoid, medoid_timer.elapsed_s());
 
-  std::vector<std::filesystem::path> idmaps;
-  idmaps.reserve(num_parts);
-  for (const auto &p : assign.idmap_paths) {
-    idmaps.emplace_back(p);
-  }
   alaya::Timer merge_timer;
   alaya::vamana::merge_shards(shard_graphs, idmaps, out_path_str, args.R, global_medoid, args.seed);
   LOG_INFO("merge done in {}s", merge_timer.elapsed_s());
-- 
2.43.0


From 41a01257a2230430f6c3bec70158efb1021cb890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 51/51] fix: a recovery log or snapshot pointer that cannot be
 read is an error, not an empty one

Replay took a failing read or stat for the end of the log, and a CURRENT or manifest file that could
not be opened or read for no snapshot: acknowledged mutations were dropped without a word.
---
 include/recovery/recovery_manager.hpp | 35 +++++++++++++--------------
 include/recovery/write_ahead_log.hpp  | 17 ++++++-------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 71bbd47..a98c973 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -115,20 +115,16 @@ class RecoveryManager {
   /**
    * @brief Loads the manifest for the snapshot named by the CURRENT pointer.
    *
-   * Missing recovery state, unreadable files and empty CURRENT contents are treated as no snapshot
-   * being available, allowing callers to fall back to WAL-only recovery or a fresh layout.
+   * Missing recovery state, malformed manifests and empty CURRENT contents are treated as no
+   * snapshot being available, allowing callers to fall back to WAL-only recovery or a fresh layout.
+   * Files that exist but cannot be read are an error: the state they describe is still there.
    */
   [[nodiscard]] auto current_snapshot() const -> std::optional<SnapshotManifest> {
     if (!enabled() || !fs::exists(current_path_)) {
       return std::nullopt;
     }
 
-    auto current_id = read_text(current_path_);
-    if (!current_id.has_value()) {
-      return std::nullopt;
-    }
-
-    std::string snapshot_id = trim(current_id.value());
+    std::string snapshot_id = trim(read_text(current_path_));
     if (snapshot_id.empty()) {
       return std::nullopt;
     }
@@ -138,11 +134,7 @@ class RecoveryManager {
       return std::nullopt;
     }
 
-    auto manifest_raw = read_text(manifest_path);
-    if (!manifest_raw.has_value()) {
-      return std::nullopt;
-    }
-    return SnapshotManifest::deserialize(manifest_raw.value());
+    return SnapshotManifest::deserialize(read_text(manifest_path));
   }
 
   [[nodiscard]] auto current_snapshot_dir() const -> std::optional<fs::path> {
@@ -238,14 +230,21 @@ class RecoveryManager {
     return value.substr(first);
   }
 
-  static auto read_text(const fs::path &path) -> std::optional<std::string> {
+  static auto read_text(const fs::path &path) -> std::string {
     std::ifstream input(path);
     if (!input.is_open()) {
-      return std::nullopt;
+      throw std::runtime_error("Failed to open " + path.string() + " for reading");
+    }
+    std::string text;
+    std::string line;
+    while (std::getline(input, line)) {
+      text += line;
+      text += '\n';
+    }
+    if (input.bad()) {
+      throw std::runtime_error("Failed to read " + path.string());
     }
-    std::ostringstream buffer;
-    buffer << input.rdbuf();
-    return buffer.str();
+    return text;
   }
 
   /**
diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index 2caf0cb..4890d28 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -145,7 +145,7 @@ class WriteAheadLog {
    *
    * PREPARE frames are held until a matching COMMIT frame is seen. Truncated or corrupted tail
    * frames stop replay after logging a warning, preserving all complete committed records that were
-   * written before the damaged section.
+   * written before the damaged section. A log that cannot be read is an error.
    *
    * @param applied_through Highest operation id already covered by the active snapshot.
    * @param max_seen_op_id Optional output for the largest operation id observed while scanning.
@@ -176,15 +176,7 @@ class WriteAheadLog {
     if (!input.is_open()) {
       throw std::runtime_error("Failed to open WAL file at " + path_.string());
     }
-    std::error_code file_size_ec;
-    const auto wal_file_size = fs::file_size(path_, file_size_ec);
-    if (file_size_ec) {
-      LOG_WARN("Failed to stat WAL file at {}: {}", path_.string(), file_size_ec.message());
-      if (max_seen_op_id != nullptr) {
-        *max_seen_op_id = applied_through;
-      }
-      return committed;
-    }
+    const auto wal_file_size = fs::file_size(path_);
 
     uint64_t max_op_id = applied_through;
     while (true) {
@@ -223,6 +215,11 @@ class WriteAheadLog {
       pending.erase(pending_it);
     }
 
+    if (input.bad()) {
+      // Not the end of the log: committed records may follow.
+      throw std::runtime_error("Failed to read WAL file at " + path_.string());
+    }
+
     if (max_seen_op_id != nullptr) {
       *max_seen_op_id = max_op_id;
     }
-- 
2.43.0

