From f5ec04a24982571a93dc64a4b289a9f622a63fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 01/16] fix: notify under the lock in Barrier::CountDown()

The thread that released the waiting threads could still touch the condition
variable after a waiting thread had returned and destroyed the barrier.
---
 rst/threading/barrier.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rst/threading/barrier.cc b/rst/threading/barrier.cc
index c008454..bbf65e0 100644
--- a/rst/threading/barrier.cc
+++ b/rst/threading/barrier.cc
@@ -56,16 +56,13 @@ void Barrier::CountDownAndWait() {
 }
 
 void Barrier::CountDown() {
-  size_t counter = 0;
-
-  {
-    std::lock_guard lock(mutex_);
-    RST_DCHECK(counter_ > 0);
-
-    counter = --counter_;
-  }
+  std::lock_guard lock(mutex_);
+  RST_DCHECK(counter_ > 0);
 
-  if (counter == 0)
+  counter_--;
+  // Notify under the lock since the barrier can be destroyed right after the
+  // waiting threads return.
+  if (counter_ == 0)
     cv_.notify_one();
 }
 
-- 
2.43.0


From 52613f07cc3f847fa4ba304b942fe0c8655b2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 02/16] fix: do not lose a task pushed to a pool thread that
 has just timed out

A worker whose keep alive time expired returned without looking at the queue
again and removed itself from the thread map only after having released the
mutex, so a task pushed meanwhile was left to nobody.
---
 rst/task_runner/thread_pool_task_runner.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 660d320..14e998d 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -55,16 +55,16 @@ ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
 
 void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   std::function<void()> task;
-  RST_DEFER([this]() {
-    std::lock_guard lock(thread_mutex_);
-
+  // Must be called with |thread_mutex_| held so that this thread is not counted
+  // on to run the tasks that are pushed after it has decided to exit.
+  const auto remove_this_thread = [this]() {
     const auto it = thread_id_to_thread_map_.find(std::this_thread::get_id());
     RST_DCHECK(it != thread_id_to_thread_map_.cend());
     it->second.detach();
     thread_id_to_thread_map_.erase(it);
 
     thread_cv_.notify_one();
-  });
+  };
 
   while (true) {
     auto had_items = false;
@@ -76,14 +76,19 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
         waiting_threads_num_++;
         RST_DEFER([this]() { waiting_threads_num_--; });
 
+        // A task may have been pushed for this thread after it timed out.
         if (thread_cv_.wait_for(lock, keep_alive_time_) ==
-            std::cv_status::timeout) {
+                std::cv_status::timeout &&
+            tasks_.empty()) {
+          remove_this_thread();
           return;
         }
       }
 
-      if (should_exit_)
+      if (should_exit_) {
+        remove_this_thread();
         return;
+      }
 
       RST_DCHECK(!tasks_.empty());
       auto& front = tasks_.front();
-- 
2.43.0


From 84be573d6086558d9bfa1a323dd6dff8f3e1a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 03/16] fix: create pool threads for tasks that idle threads
 cannot take

A waiting thread that was already notified for one task was counted again for
the next one, so that task had to wait for a busy thread although the maximum
number of threads was not reached; tasks waiting for each other deadlocked.
---
 rst/task_runner/thread_pool_task_runner.cc | 88 +++++++++++-----------
 rst/task_runner/thread_pool_task_runner.h  |  8 +-
 2 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 14e998d..2c44057 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -27,10 +27,10 @@
 
 #include "rst/task_runner/thread_pool_task_runner.h"
 
+#include <algorithm>
 #include <utility>
 
 #include "rst/check/check.h"
-#include "rst/defer/defer.h"
 #include "rst/stl/algorithm.h"
 
 namespace chrono = std::chrono;
@@ -66,16 +66,20 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
     thread_cv_.notify_one();
   };
 
+  auto is_running = false;
   while (true) {
     auto had_items = false;
 
     {
       std::unique_lock lock(thread_mutex_);
 
-      while (tasks_.empty() && !should_exit_) {
-        waiting_threads_num_++;
-        RST_DEFER([this]() { waiting_threads_num_--; });
+      if (is_running) {
+        RST_DCHECK(running_threads_num_ > 0);
+        running_threads_num_--;
+        is_running = false;
+      }
 
+      while (tasks_.empty() && !should_exit_) {
         // A task may have been pushed for this thread after it timed out.
         if (thread_cv_.wait_for(lock, keep_alive_time_) ==
                 std::cv_status::timeout &&
@@ -100,17 +104,42 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
         front.iterations--;
       }
 
+      RST_DCHECK(pending_tasks_num_ > 0);
+      pending_tasks_num_--;
+      running_threads_num_++;
+      is_running = true;
+
       had_items = !tasks_.empty();
     }
 
-    if (had_items)
-      thread_cv_.notify_one();
+    if (had_items) thread_cv_.notify_one();
 
     task();
     task = nullptr;
   }
 }
 
+void ThreadPoolTaskRunner::DelayedTaskRunner::CreateThreads() {
+  RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
+  RST_DCHECK(running_threads_num_ <= thread_id_to_thread_map_.size());
+
+  // All the threads that don't run a task, even if they have already been
+  // notified, are going to take one of the pending tasks.
+  const auto idle_threads_num =
+      thread_id_to_thread_map_.size() - running_threads_num_;
+  const auto threads_num_to_create = std::min(
+      pending_tasks_num_ - std::min(pending_tasks_num_, idle_threads_num),
+      max_threads_num_ - thread_id_to_thread_map_.size());
+
+  for (size_t i = 0; i < threads_num_to_create; i++) {
+    std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
+    const auto id = t.get_id();
+    const auto [_, success] =
+        thread_id_to_thread_map_.emplace(id, std::move(t));
+    RST_DCHECK(success);
+  }
+}
+
 void ThreadPoolTaskRunner::DelayedTaskRunner::PushTasks(
     const NotNull<std::vector<internal::IterationItem>*> tasks) {
   RST_DCHECK(!tasks->empty());
@@ -118,26 +147,12 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTasks(
   {
     std::lock_guard lock(thread_mutex_);
 
-    size_t tasks_num = 0;
     for (auto& task : *tasks) {
-      tasks_num += task.iterations + 1;
+      pending_tasks_num_ += task.iterations + 1;
       tasks_.emplace(std::move(task));
     }
 
-    RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
-    const auto max_threads_num_to_create =
-        max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
-
-    for (size_t i = 0; i < threads_num_to_create; i++) {
-      std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
-      const auto id = t.get_id();
-      const auto [_, success] =
-          thread_id_to_thread_map_.emplace(id, std::move(t));
-      RST_DCHECK(success);
-    }
+    CreateThreads();
   }
 
   thread_cv_.notify_one();
@@ -148,23 +163,10 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::PushTask(
   {
     std::lock_guard lock(thread_mutex_);
 
-    const auto tasks_num = task.iterations + 1;
+    pending_tasks_num_ += task.iterations + 1;
     tasks_.emplace(std::move(task));
 
-    RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
-    const auto max_threads_num_to_create =
-        max_threads_num_ - thread_id_to_thread_map_.size();
-    auto threads_num_to_create = std::min(tasks_num, max_threads_num_to_create);
-    threads_num_to_create -=
-        std::min(threads_num_to_create, waiting_threads_num_);
-
-    for (size_t i = 0; i < threads_num_to_create; i++) {
-      std::thread t(&DelayedTaskRunner::WaitAndRunTasks, this);
-      const auto id = t.get_id();
-      const auto [_, success] =
-          thread_id_to_thread_map_.emplace(id, std::move(t));
-      RST_DCHECK(success);
-    }
+    CreateThreads();
   }
 
   thread_cv_.notify_one();
@@ -199,8 +201,7 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::WaitAndScheduleTasks() {
     {
       std::unique_lock lock(thread_mutex_);
 
-      if (should_exit_)
-        return;
+      if (should_exit_) return;
 
       if (!delayed_tasks_.empty()) {
         const auto& item = delayed_tasks_.front();
@@ -213,18 +214,15 @@ void ThreadPoolTaskRunner::ServiceTaskRunner::WaitAndScheduleTasks() {
         thread_cv_.wait(lock);
       }
 
-      if (should_exit_)
-        return;
+      if (should_exit_) return;
 
-      if (delayed_tasks_.empty())
-        continue;
+      if (delayed_tasks_.empty()) continue;
 
       const auto now = time_function_();
       RST_DCHECK(tasks.empty());
       while (!delayed_tasks_.empty()) {
         auto& item = delayed_tasks_.front();
-        if (now < item.time_point)
-          break;
+        if (now < item.time_point) break;
 
         tasks.emplace_back(std::move(item.task), item.iterations);
         c_pop_heap(delayed_tasks_, std::greater<>());
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index 87e6c03..0aa7496 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -100,6 +100,9 @@ class ThreadPoolTaskRunner : public TaskRunner {
 
    private:
     void WaitAndRunTasks();
+    // Creates threads for the pending tasks that idle threads can't take. Must
+    // be called with |thread_mutex_| held.
+    void CreateThreads();
 
     std::queue<internal::IterationItem> tasks_;
 
@@ -109,7 +112,10 @@ class ThreadPoolTaskRunner : public TaskRunner {
     std::unordered_map<std::thread::id, std::thread> thread_id_to_thread_map_;
     const size_t max_threads_num_;
     const std::chrono::nanoseconds keep_alive_time_;
-    size_t waiting_threads_num_ = 0;
+    // Number of tasks in |tasks_| including their iterations.
+    size_t pending_tasks_num_ = 0;
+    // Number of threads that are running a task.
+    size_t running_threads_num_ = 0;
 
     bool should_exit_ = false;
 
-- 
2.43.0


From b4da2c19f5a859a53d43e863a4bb015676b8ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 04/16] fix: stop the pool threads before destroying what their
 tasks can use

The service task runner was destroyed before the pool threads were stopped, so
a running task that posted a delayed task during the destruction of the pool
used freed memory.
---
 rst/task_runner/thread_pool_task_runner.cc | 10 ++++++++--
 rst/task_runner/thread_pool_task_runner.h  |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 2c44057..dc6b533 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -44,7 +44,9 @@ ThreadPoolTaskRunner::DelayedTaskRunner::DelayedTaskRunner(
   RST_DCHECK(keep_alive_time.count() > 0);
 }
 
-ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
+ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() { Stop(); }
+
+void ThreadPoolTaskRunner::DelayedTaskRunner::Stop() {
   std::unique_lock lock(thread_mutex_);
   should_exit_ = true;
   while (!thread_id_to_thread_map_.empty()) {
@@ -261,7 +263,11 @@ ThreadPoolTaskRunner::ThreadPoolTaskRunner(
     : delayed_task_runner_(max_threads_num, keep_alive_time),
       service_task_runner_(&delayed_task_runner_, std::move(time_function)) {}
 
-ThreadPoolTaskRunner::~ThreadPoolTaskRunner() = default;
+ThreadPoolTaskRunner::~ThreadPoolTaskRunner() {
+  // Running tasks can still post delayed tasks so they must finish before
+  // |service_task_runner_| is destroyed.
+  delayed_task_runner_.Stop();
+}
 
 void ThreadPoolTaskRunner::PostDelayedTaskWithIterations(
     std::function<void()>&& task, const chrono::nanoseconds delay,
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index 0aa7496..69e5498 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -98,6 +98,9 @@ class ThreadPoolTaskRunner : public TaskRunner {
     void PushTasks(NotNull<std::vector<internal::IterationItem>*> items);
     void PushTask(internal::IterationItem item);
 
+    // Waits for the running tasks to finish. The pending ones are not run.
+    void Stop();
+
    private:
     void WaitAndRunTasks();
     // Creates threads for the pending tasks that idle threads can't take. Must
-- 
2.43.0


From dae4757b0a53f10f26a6cbf5690a910b5b35883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 05/16] fix: keep a timer running that was restarted by its
 callback in FireNow()

FireNow() reset is_running_ after the callback, so a Start() in the
callback was lost, and a callback that destroys the timer made FireNow()
write to freed memory. RunTask() resets the flag already.
---
 rst/timer/one_shot_timer.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rst/timer/one_shot_timer.cc b/rst/timer/one_shot_timer.cc
index 95c7735..ff696ae 100644
--- a/rst/timer/one_shot_timer.cc
+++ b/rst/timer/one_shot_timer.cc
@@ -54,7 +54,6 @@ void OneShotTimer::Start(std::function<void()>&& task,
 void OneShotTimer::FireNow() {
   RST_DCHECK(IsRunning());
   RunTask(task_id_);
-  is_running_ = false;
 }
 
 void OneShotTimer::RunTask(const uint64_t task_id) {
-- 
2.43.0


From d6a6d7c5b3de04c901d7a07b63ed759f2a780c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 06/16] fix: allow assigning a part of a Value to the Value
 itself

Assigning a nested item to one of its enclosing items, directly or by
SetKey() or SetPath(), destroyed the item before it was moved.
---
 rst/value/value.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 712bec5..3b518b5 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -58,11 +58,14 @@ Value::Value(Value&& other) noexcept { MoveConstruct(std::move(other)); }
 Value::~Value() { Cleanup(); }
 
 Value& Value::operator=(Value&& rhs) noexcept {
-  if (type_ == rhs.type_) {
-    MoveAssign(std::move(rhs));
+  // |rhs| can be a part of this value that gets destroyed below.
+  Value value(std::move(rhs));
+
+  if (type_ == value.type_) {
+    MoveAssign(std::move(value));
   } else {
     Cleanup();
-    MoveConstruct(std::move(rhs));
+    MoveConstruct(std::move(value));
   }
 
   return *this;
@@ -189,6 +192,9 @@ bool Value::RemoveKey(const std::string_view key) {
 NotNull<Value*> Value::SetPath(const std::string_view path, Value&& value) {
   RST_DCHECK(IsObject());
 
+  // |value| can be a part of a step that gets replaced below.
+  Value new_value(std::move(value));
+
   auto current_path = path;
   NotNull<Value*> current_object = this;
   for (auto delimiter_position = current_path.find('.');
@@ -206,7 +212,8 @@ NotNull<Value*> Value::SetPath(const std::string_view path, Value&& value) {
     current_path = current_path.substr(delimiter_position + 1);
   }
 
-  return current_object->SetKey(std::string(current_path), std::move(value));
+  return current_object->SetKey(std::string(current_path),
+                                std::move(new_value));
 }
 
 Nullable<const Value*> Value::FindPath(const std::string_view path) const {
-- 
2.43.0


From 9af3cef55bb48581dc9b1bc4d49c91881acdb7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 07/16] fix: reject the smallest int64_t in the Value
 constructor

std::abs() of it overflows and stayed negative, so it passed the check.
---
 rst/value/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rst/value/value.h b/rst/value/value.h
index c8a219a..6cc14b7 100644
--- a/rst/value/value.h
+++ b/rst/value/value.h
@@ -138,7 +138,7 @@ class Value {
   // Can store |2^53 - 1| at maximum since it's a max safe integer that can be
   // stored in JavaScript.
   explicit Value(int64_t value) : Value(static_cast<double>(value)) {
-    RST_DCHECK(std::abs(value) <= kMaxSafeInteger);
+    RST_DCHECK(-kMaxSafeInteger <= value && value <= kMaxSafeInteger);
   }
 
   explicit Value(double value) : type_(Type::kNumber), number_(value) {
-- 
2.43.0


From 80b341439138d85bdb9c708f6bf0c63935d00c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 08/16] fix: stop before Format() writes past its result in
 checked builds

---
 rst/strings/format.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rst/strings/format.cc b/rst/strings/format.cc
index afc7c85..6b094ae 100644
--- a/rst/strings/format.cc
+++ b/rst/strings/format.cc
@@ -56,17 +56,21 @@ std::string FormatAndReturnString(const NotNull<const char*> not_null_format,
 
   size_t arg_idx = 0;
   auto target = output.data();
+  [[maybe_unused]] const auto end = target + new_size;
   for (auto c = '\0'; (c = *format) != '\0'; format++) {
     switch (RST_LIKELY_EQ(c, ' ')) {
       case '{': {
         if (RST_LIKELY(*(format + 1) == '}')) {
           RST_DCHECK(arg_idx < size && "Extra arguments");
           if (const auto src = values[arg_idx++].view(); !src.empty()) {
+            RST_DCHECK(src.size() <= static_cast<size_t>(end - target) &&
+                       "Numbers of parameters should match");
             std::memcpy(target, src.data(), src.size());
             target += src.size();
           }
         } else {
           RST_DCHECK((*(format + 1) == '{') && "Invalid format string");
+          RST_DCHECK(target < end && "Numbers of parameters should match");
           *target++ = '{';
         }
 
@@ -76,10 +80,12 @@ std::string FormatAndReturnString(const NotNull<const char*> not_null_format,
       case '}': {
         RST_DCHECK((*(format + 1) == '}') && "Unmatched '}' in format string");
         format++;
+        RST_DCHECK(target < end && "Numbers of parameters should match");
         *target++ = '}';
         break;
       }
       default: {
+        RST_DCHECK(target < end && "Numbers of parameters should match");
         *target++ = c;
         break;
       }
-- 
2.43.0


From c302378c649b4d7c32931715c51001319bbd8c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 09/16] fix: remove the temporary file when
 WriteImportantFile() can't write it

---
 rst/files/file_utils.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rst/files/file_utils.cc b/rst/files/file_utils.cc
index fd32722..75e8ddc 100644
--- a/rst/files/file_utils.cc
+++ b/rst/files/file_utils.cc
@@ -35,7 +35,7 @@
 #include <utility>
 
 #include "rst/guid/guid.h"
-#include "rst/status/status_macros.h"
+#include "rst/rtti/rtti.h"
 #include "rst/stl/resize_uninitialized.h"
 #include "rst/strings/str_cat.h"
 
@@ -112,7 +112,13 @@ Status WriteImportantFile(const filesystem::path& filename,
                           const std::string_view data) {
   const filesystem::path temp_filename(
       StrCat({filename.native(), Guid().AsStringView().value(), ".tmp"}));
-  RST_TRY(WriteFile(temp_filename.c_str(), "wxb", data));
+  auto status = WriteFile(temp_filename.c_str(), "wxb", data);
+  if (status.err()) {
+    // The file isn't ours if it can't be opened.
+    if (dyn_cast<FileOpenError>(status.GetError()) == nullptr)
+      (void)Remove(temp_filename);
+    return status;
+  }
 
   if (!Rename(temp_filename, filename)) {
     (void)Remove(temp_filename);
-- 
2.43.0


From b9c0e957e5e715c86943af9968289a70e57f34b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:18 +0000
Subject: [PATCH 10/16] fix: write log messages with embedded null characters
 completely

---
 rst/logger/file_name_sink.cc | 10 +++++-----
 rst/logger/file_ptr_sink.cc  | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/rst/logger/file_name_sink.cc b/rst/logger/file_name_sink.cc
index 486b287..31273d6 100644
--- a/rst/logger/file_name_sink.cc
+++ b/rst/logger/file_name_sink.cc
@@ -27,7 +27,6 @@
 
 #include "rst/logger/file_name_sink.h"
 
-#include <limits>
 #include <utility>
 
 #include "rst/check/check.h"
@@ -55,11 +54,12 @@ StatusOr<FileNameSink::Ptr> FileNameSink::Create(
 void FileNameSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(log_file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  const auto record = StrCat({message, "\n"});
+  RST_CHECK(std::fwrite(record.data(), 1, record.size(), log_file_.get()) ==
+            record.size());
   RST_CHECK(std::fflush(log_file_.get()) == 0);
+  // fwrite() doesn't report every failure to flush a line-buffered file.
+  RST_CHECK(std::ferror(log_file_.get()) == 0);
 }
 
 }  // namespace rst
diff --git a/rst/logger/file_ptr_sink.cc b/rst/logger/file_ptr_sink.cc
index 80c5549..fe27e4e 100644
--- a/rst/logger/file_ptr_sink.cc
+++ b/rst/logger/file_ptr_sink.cc
@@ -27,9 +27,8 @@
 
 #include "rst/logger/file_ptr_sink.h"
 
-#include <limits>
-
 #include "rst/check/check.h"
+#include "rst/strings/str_cat.h"
 
 namespace rst {
 
@@ -45,11 +44,12 @@ FilePtrSink::~FilePtrSink() = default;
 void FilePtrSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  const auto record = StrCat({message, "\n"});
+  RST_CHECK(std::fwrite(record.data(), 1, record.size(), file_.get()) ==
+            record.size());
   RST_CHECK(std::fflush(file_.get()) == 0);
+  // fwrite() doesn't report every failure to flush a line-buffered file.
+  RST_CHECK(std::ferror(file_.get()) == 0);
 }
 
 }  // namespace rst
-- 
2.43.0


From d6a3e63cb1938fca8e4eaedd4d898b10b1613b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 11/16] fix: don't convert expired weak pointers

Converting a pointer to a virtual base reads the object, which has already been
destroyed when the weak pointer is expired.
---
 rst/memory/weak_ptr.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rst/memory/weak_ptr.h b/rst/memory/weak_ptr.h
index 2345127..3923269 100644
--- a/rst/memory/weak_ptr.h
+++ b/rst/memory/weak_ptr.h
@@ -139,21 +139,24 @@ class WeakPtr {
 
   WeakPtr(const WeakPtr&) = default;
 
+  // An expired pointer must not be converted since converting to a virtual base
+  // reads the object.
   template <class U>
-  WeakPtr(const WeakPtr<U>& other) : flag_(other.flag_), ptr_(other.ptr_) {}
+  WeakPtr(const WeakPtr<U>& other)
+      : flag_(other.flag_), ptr_(other.GetNullable()) {}
 
   WeakPtr(WeakPtr&&) noexcept = default;
 
   template <class U>
   WeakPtr(WeakPtr<U>&& other) noexcept
-      : flag_(std::move(other.flag_)), ptr_(other.ptr_) {}
+      : flag_(std::move(other.flag_)), ptr_(IsValid() ? other.ptr_ : nullptr) {}
 
   WeakPtr& operator=(const WeakPtr&) = default;
 
   template <class U>
   WeakPtr& operator=(const WeakPtr<U>& rhs) {
+    ptr_ = rhs.GetNullable();
     flag_ = rhs.flag_;
-    ptr_ = rhs.ptr_;
     return *this;
   }
 
@@ -161,8 +164,8 @@ class WeakPtr {
 
   template <class U>
   WeakPtr& operator=(WeakPtr<U>&& rhs) noexcept {
+    ptr_ = rhs.GetNullable();
     flag_ = std::move(rhs.flag_);
-    ptr_ = rhs.ptr_;
     return *this;
   }
 
-- 
2.43.0


From d6a0734b8f0233ff99a8d41937f1ff951f9bdd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 12/16] fix: end pool threads that have been idle for the
 keep-alive time

---
 rst/task_runner/thread_pool_task_runner.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index dc6b533..2c8e5d8 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -81,9 +81,11 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
         is_running = false;
       }
 
+      // A notification for another thread must not make this one idle longer.
+      const auto idle_time_end = chrono::steady_clock::now() + keep_alive_time_;
       while (tasks_.empty() && !should_exit_) {
         // A task may have been pushed for this thread after it timed out.
-        if (thread_cv_.wait_for(lock, keep_alive_time_) ==
+        if (thread_cv_.wait_until(lock, idle_time_end) ==
                 std::cv_status::timeout &&
             tasks_.empty()) {
           remove_this_thread();
-- 
2.43.0


From 435fe70036d61758fff52444cce367d0a805df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:32 +0000
Subject: [PATCH 13/16] fix: keep the source alive when a StatusOr is assigned
 a part of its value

---
 rst/status/status_or.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rst/status/status_or.h b/rst/status/status_or.h
index d056236..2a306fe 100644
--- a/rst/status/status_or.h
+++ b/rst/status/status_or.h
@@ -123,11 +123,14 @@ class [[nodiscard]] StatusOr {
     RST_DCHECK(was_checked_);
 #endif  // RST_BUILDFLAG(DCHECK_IS_ON)
 
-    if (RST_LIKELY(has_error_ == rhs.has_error_)) {
-      MoveAssignFromStatusOr(std::move(rhs));
+    // |rhs| can be a part of the value that gets destroyed below.
+    StatusOr other(std::move(rhs));
+
+    if (RST_LIKELY(has_error_ == other.has_error_)) {
+      MoveAssignFromStatusOr(std::move(other));
     } else {
       Cleanup();
-      MoveConstructFromStatusOr(std::move(rhs));
+      MoveConstructFromStatusOr(std::move(other));
     }
 
     return *this;
-- 
2.43.0


From f68bbbf0c31d13cb857b8aa39a7b8c93414eb49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 14/16] fix: keep the path alive when Value::SetPath() is given
 one of its own strings

---
 rst/value/value.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 3b518b5..d8848e5 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -192,10 +192,12 @@ bool Value::RemoveKey(const std::string_view key) {
 NotNull<Value*> Value::SetPath(const std::string_view path, Value&& value) {
   RST_DCHECK(IsObject());
 
-  // |value| can be a part of a step that gets replaced below.
+  // |path| can refer to a string of a step that gets replaced below.
+  const std::string path_copy(path);
+  // The same goes for |value|.
   Value new_value(std::move(value));
 
-  auto current_path = path;
+  std::string_view current_path = path_copy;
   NotNull<Value*> current_object = this;
   for (auto delimiter_position = current_path.find('.');
        delimiter_position != std::string_view::npos;
-- 
2.43.0


From da3e4f7b41dc838b0cce36c1ed89bfe5bd816bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 15/16] fix: let tasks that are destroyed with a polling runner
 post to it

---
 rst/task_runner/polling_task_runner.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rst/task_runner/polling_task_runner.cc b/rst/task_runner/polling_task_runner.cc
index e74c607..449a21f 100644
--- a/rst/task_runner/polling_task_runner.cc
+++ b/rst/task_runner/polling_task_runner.cc
@@ -40,7 +40,15 @@ PollingTaskRunner::PollingTaskRunner(
     std::function<chrono::nanoseconds()>&& time_function)
     : time_function_(std::move(time_function)) {}
 
-PollingTaskRunner::~PollingTaskRunner() = default;
+PollingTaskRunner::~PollingTaskRunner() {
+  // Destroying a task can post other ones.
+  std::vector<internal::Item> tasks;
+  do {
+    tasks.clear();
+    std::lock_guard lock(mutex_);
+    tasks.swap(queue_);
+  } while (!tasks.empty());
+}
 
 void PollingTaskRunner::PostDelayedTaskWithIterations(
     std::function<void()>&& task, const chrono::nanoseconds delay,
-- 
2.43.0


From 7f721620c06b55415fb32d8fbcde79c621406713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 16/16] fix: let tasks that are destroyed with a thread pool
 post to it

---
 rst/task_runner/thread_pool_task_runner.cc | 39 ++++++++++++++++++++--
 rst/task_runner/thread_pool_task_runner.h  |  8 +++++
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 2c8e5d8..d026b8c 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -55,6 +55,19 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::Stop() {
   }
 }
 
+bool ThreadPoolTaskRunner::DelayedTaskRunner::DiscardTasks() {
+  std::queue<internal::IterationItem> tasks;
+
+  {
+    std::lock_guard lock(thread_mutex_);
+    RST_DCHECK(should_exit_);
+    tasks.swap(tasks_);
+    pending_tasks_num_ = 0;
+  }
+
+  return !tasks.empty();
+}
+
 void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   std::function<void()> task;
   // Must be called with |thread_mutex_| held so that this thread is not counted
@@ -124,6 +137,8 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
 }
 
 void ThreadPoolTaskRunner::DelayedTaskRunner::CreateThreads() {
+  if (should_exit_) return;
+
   RST_DCHECK(thread_id_to_thread_map_.size() <= max_threads_num_);
   RST_DCHECK(running_threads_num_ <= thread_id_to_thread_map_.size());
 
@@ -188,7 +203,9 @@ ThreadPoolTaskRunner::ServiceTaskRunner::ServiceTaskRunner(
 {
 }
 
-ThreadPoolTaskRunner::ServiceTaskRunner::~ServiceTaskRunner() {
+ThreadPoolTaskRunner::ServiceTaskRunner::~ServiceTaskRunner() = default;
+
+void ThreadPoolTaskRunner::ServiceTaskRunner::Stop() {
   {
     std::lock_guard lock(thread_mutex_);
     should_exit_ = true;
@@ -198,6 +215,18 @@ ThreadPoolTaskRunner::ServiceTaskRunner::~ServiceTaskRunner() {
   thread_.join();
 }
 
+bool ThreadPoolTaskRunner::ServiceTaskRunner::DiscardTasks() {
+  std::vector<internal::Item> tasks;
+
+  {
+    std::lock_guard lock(thread_mutex_);
+    RST_DCHECK(should_exit_);
+    tasks.swap(delayed_tasks_);
+  }
+
+  return !tasks.empty();
+}
+
 void ThreadPoolTaskRunner::ServiceTaskRunner::WaitAndScheduleTasks() {
   std::vector<internal::IterationItem> tasks;
 
@@ -267,8 +296,14 @@ ThreadPoolTaskRunner::ThreadPoolTaskRunner(
 
 ThreadPoolTaskRunner::~ThreadPoolTaskRunner() {
   // Running tasks can still post delayed tasks so they must finish before
-  // |service_task_runner_| is destroyed.
+  // |service_task_runner_| is stopped.
   delayed_task_runner_.Stop();
+  service_task_runner_.Stop();
+
+  // Destroying a task can post other ones.
+  while (delayed_task_runner_.DiscardTasks() ||
+         service_task_runner_.DiscardTasks()) {
+  }
 }
 
 void ThreadPoolTaskRunner::PostDelayedTaskWithIterations(
diff --git a/rst/task_runner/thread_pool_task_runner.h b/rst/task_runner/thread_pool_task_runner.h
index 69e5498..fed0689 100644
--- a/rst/task_runner/thread_pool_task_runner.h
+++ b/rst/task_runner/thread_pool_task_runner.h
@@ -100,6 +100,9 @@ class ThreadPoolTaskRunner : public TaskRunner {
 
     // Waits for the running tasks to finish. The pending ones are not run.
     void Stop();
+    // Destroys the pending tasks of the stopped runner. Returns whether there
+    // were any.
+    bool DiscardTasks();
 
    private:
     void WaitAndRunTasks();
@@ -135,6 +138,11 @@ class ThreadPoolTaskRunner : public TaskRunner {
     void PushTask(std::function<void()>&& task, std::chrono::nanoseconds delay,
                   size_t iterations);
 
+    void Stop();
+    // Destroys the delayed tasks of the stopped runner. Returns whether there
+    // were any.
+    bool DiscardTasks();
+
    private:
     void WaitAndScheduleTasks();
 
-- 
2.43.0

