From acfe58c5426371a1e4673e81414c1ddb43dfaee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 01/69] fix: callbacks registered after stop was requested must
 see what preceded the request

inplace_stop_source::__try_lock_unless_stop_requested_ used relaxed loads on
the path that reports that stop has already been requested, so a callback run
inline by its registration was not ordered after request_stop().
---
 include/stdexec/stop_token.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index a53bd91..b75084a 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -325,7 +325,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     const noexcept -> bool
   {
     STDEXEC::__stok::__spin_wait __spin;
-    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
     do
     {
       while (true)
@@ -342,7 +342,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
         else
         {
           __spin.__wait();
-          __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+          __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
         }
       }
     }
@@ -351,7 +351,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
                                              ? (__locked_flag_ | __stop_requested_flag_)
                                              : __locked_flag_,
                                            STDEXEC::__std::memory_order_acq_rel,
-                                           STDEXEC::__std::memory_order_relaxed));
+                                           STDEXEC::__std::memory_order_acquire));
 
     // Lock acquired successfully
     return true;
-- 
2.43.0


From 84b4f6229b5c60b94972b0f9f5f5a3a2ec048211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 02/69] fix: a thief that claims a slot of a work-stealing
 block must see what the owner stored in it

steal() reads the slot after a relaxed compare-exchange on steal_tail_, so
nothing orders the read after the owner's write: the preceding acquire load of
tail_ may return a value older than the write (or the block may have been taken
over, refilled and granted again in between).  The value the compare-exchange
reads is in the release sequence of the owner's grant(), so acquiring there
orders both the slot and what the stored pointer refers to.
---
 include/exec/detail/bwos_lifo_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/detail/bwos_lifo_queue.hpp b/include/exec/detail/bwos_lifo_queue.hpp
index a45863c..abf4a00 100644
--- a/include/exec/detail/bwos_lifo_queue.hpp
+++ b/include/exec/detail/bwos_lifo_queue.hpp
@@ -553,7 +553,7 @@ namespace experimental::execution::bwos
       return result;
     }
     // Try to claim the item at spos by atomically incrementing steal_tail_
-    if (!steal_tail_.compare_exchange_strong(spos, spos + 1, STDEXEC::__std::memory_order_relaxed))
+    if (!steal_tail_.compare_exchange_strong(spos, spos + 1, STDEXEC::__std::memory_order_acquire))
     {
       // Another thief claimed this item, retry
       result.status = lifo_queue_error_code::conflict;
-- 
2.43.0


From 5062d2e7ba819fa8648293482d5ce1d4787b2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 03/69] fix: the mpsc queue must not report empty while it
 holds a node nobody will announce

pop_front() returned nullptr whenever a producer was between its exchange and
its link.  If that producer pushed behind another node its push_back() returned
false, so it wakes nobody, and the consumer went to sleep on a non-empty queue:
both nodes stayed there until an unrelated push (for timed_thread_context: until
its next deadline or a two second timeout).  Wait for the link in that case; a
producer that pushed behind the stub still announces itself.
---
 .../__detail/__intrusive_mpsc_queue.hpp       | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/include/stdexec/__detail/__intrusive_mpsc_queue.hpp b/include/stdexec/__detail/__intrusive_mpsc_queue.hpp
index 01b9d4d..d7c137f 100644
--- a/include/stdexec/__detail/__intrusive_mpsc_queue.hpp
+++ b/include/stdexec/__detail/__intrusive_mpsc_queue.hpp
@@ -22,6 +22,7 @@
 #pragma once
 
 #include "__atomic.hpp"
+#include "__spin_loop_pause.hpp"
 
 #include "stdexec/__detail/__config.hpp"
 
@@ -82,26 +83,22 @@ namespace STDEXEC
       // 1) There are no more nodes in the queue
       // 2) A producer is in the middle of adding a new node
       _Node const * __head = this->__head_.load(__std::memory_order_acquire);
-      // A producer is in the middle of adding a new node
-      // we cannot return tail as we cannot link the next node yet
-      if (__tail != __head)
-      {
-        return nullptr;
-      }
       // No more nodes in the queue - we need to insert a stub node
       // to be able to link to an eventual empty state (or new nodes)
-      push_back(&__stub_);
-      // Now re-attempt to load next
-      __next = (__tail->*_Next).load(__std::memory_order_acquire);
-      if (nullptr != __next)
+      if (__tail == __head)
       {
-        // Successfully linked either a new node or the stub node
-        this->__tail_ = __next;
-        return __tail;
+        push_back(&__stub_);
+      }
+      // __tail now has a successor, either a new node or the stub node. If it is not linked yet,
+      // then a producer is between the two steps of push_back(). That producer was told that the
+      // queue was not empty and so wakes nobody up: reporting an empty queue here could leave
+      // __tail and the new node stranded. Wait for the link instead.
+      while (nullptr == (__next = (__tail->*_Next).load(__std::memory_order_acquire)))
+      {
+        __spin_loop_pause();
       }
-      // A producer is in the middle of adding a new node since next is still nullptr
-      // and not our stub node, thus we cannot link the next node yet
-      return nullptr;
+      this->__tail_ = __next;
+      return __tail;
     }
   };
 
-- 
2.43.0


From 42290a12e8d333cc8588c1acf7e7aca4ddfc345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 04/69] fix: a stopped static_thread_pool worker must not exit
 while tasks are queued for it

---
 include/exec/static_thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index f84d038..0333349 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1140,7 +1140,8 @@ namespace experimental::execution
         std::unique_lock lock{mut_};
         if (stop_requested_)
         {
-          return result;
+          // Work that was enqueued before the stop request must still be executed.
+          return try_remote(remote_poll_mode::before_sleep);
         }
         state expected = state::running;
         if (state_.compare_exchange_weak(expected,
-- 
2.43.0


From a7d410798b840045216765511d847a5b8b86cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 05/69] fix: workers must not inspect the pool's std::thread
 objects while the destructor joins them

---
 include/exec/static_thread_pool.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index 0333349..8670689 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -490,19 +490,7 @@ namespace experimental::execution
 
       auto get_remote_queue() noexcept -> remote_queue*
       {
-        remote_queue* queue = remotes_.get();
-        std::size_t   index = 0;
-        for (std::thread& t: threads_)
-        {
-          if (t.get_id() == queue->id_)
-          {
-            queue->index_ = index;
-            break;
-          }
-
-          ++index;
-        }
-        return queue;
+        return remotes_.get();
       }
 
       void request_stop() noexcept;
@@ -795,6 +783,8 @@ namespace experimental::execution
       STDEXEC_ASSERT(thread_index < thread_count_);
       // NOLINTNEXTLINE(bugprone-unused-return-value)
       numa_.bind_to_node(thread_states_[thread_index]->numa_node());
+      // Mark this thread's queue as belonging to a worker of this pool.
+      remotes_.get()->index_ = thread_index;
       while (true)
       {
         // Make a blocking call to de-queue a task if we don't already have one.
-- 
2.43.0


From a82ed4361ce7900d9e8c722b04f2d7354955bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 06/69] fix: schedule_all must not touch its operation after
 the last item has completed

---
 include/exec/static_thread_pool.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index 8670689..6b0eb9b 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1565,7 +1565,8 @@ namespace experimental::execution
         bool                                 has_started_{false};
         __intrusive_queue<&task_base::next_> tasks_{};
         std::size_t                          tasks_size_{};
-        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_)};
+        // One for each item, plus one for start().
+        __std::atomic<std::size_t> countdown_{std::ranges::size(range_) + 1};
       };
 
       template <class Range, class ItemReceiver>
@@ -1649,6 +1650,15 @@ namespace experimental::execution
           , rcvr_(static_cast<Receiver&&>(rcvr))
         {}
 
+        // Called once for every item and once at the end of start(); the last one completes.
+        void arrive() noexcept
+        {
+          if (this->countdown_.fetch_sub(1, __std::memory_order_acq_rel) == 1)
+          {
+            STDEXEC::set_value(static_cast<Receiver&&>(rcvr_));
+          }
+        }
+
         Receiver rcvr_;
       };
 
@@ -1659,20 +1669,12 @@ namespace experimental::execution
 
         void set_value() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive();
         }
 
         void set_stopped() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive();
         }
 
         auto get_env() const noexcept -> env_of_t<Receiver>
@@ -1759,6 +1761,8 @@ namespace experimental::execution
           std::unique_lock lock{this->start_mutex_};
           this->has_started_ = true;
           this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
+          lock.unlock();
+          this->arrive();
         }
 
        private:
-- 
2.43.0


From f80e5c5d7998ec7c729d2caf7d4da1ccf61d76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 07/69] fix: a closing timed_thread_context must process the
 commands that are still queued

---
 include/exec/timed_thread_scheduler.hpp | 41 +++++++++++++++----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index b19e5a2..3ea4477 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -149,29 +149,34 @@ namespace experimental::execution
     using stop_type    = _time_thrd_sched::timed_thread_stop_operation;
     using time_point   = std::chrono::steady_clock::time_point;
 
-    void run()
+    void process_commands()
     {
-      while (true)
+      while (command_type* op = command_queue_.pop_front())
       {
-        while (command_type* op = command_queue_.pop_front())
+        if (op->command_ == command_type::command_type::schedule)
         {
-          if (op->command_ == command_type::command_type::schedule)
+          auto* task = static_cast<task_type*>(op);
+          task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
+          heap_.insert(task);
+        }
+        else
+        {
+          STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
+          auto* stop_op = static_cast<stop_type*>(op);
+          if (heap_.erase(stop_op->target_))
           {
-            auto* task  = static_cast<task_type*>(op);
-            task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
-            heap_.insert(task);
-          }
-          else
-          {
-            STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
-            auto* stop_op = static_cast<stop_type*>(op);
-            if (heap_.erase(stop_op->target_))
-            {
-              stop_op->target_->set_stopped_(stop_op->target_);
-            }
-            stop_op->set_value_(stop_op);
+            stop_op->target_->set_stopped_(stop_op->target_);
           }
+          stop_op->set_value_(stop_op);
         }
+      }
+    }
+
+    void run()
+    {
+      while (true)
+      {
+        process_commands();
         time_point now = std::chrono::steady_clock::now();
         task_type* op  = heap_.front();
         while (op && op->time_point_ <= now)
@@ -197,6 +202,8 @@ namespace experimental::execution
             STDEXEC::__spin_loop_pause();
             expected = 0;
           }
+          // commands that were queued before the context was closed
+          process_commands();
           op = heap_.front();
           while (op)
           {
-- 
2.43.0


From 8e0d29a5c75dfc5ff44e56e5a2a6858c4811a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 08/69] fix: a stop command that overtakes its schedule command
 must cancel the timer

---
 include/exec/timed_thread_scheduler.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 3ea4477..6a90c70 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -97,6 +97,8 @@ namespace experimental::execution
       {}
 
       time_point time_point_;
+      // set when the stop command is processed before the schedule command
+      bool stopped_ = false;
       // we increase the when counter to ensure that the heap is stable
       // when two operations have the same time_point
       // We do so only when the operation is started, not when it is constructed
@@ -156,6 +158,12 @@ namespace experimental::execution
         if (op->command_ == command_type::command_type::schedule)
         {
           auto* task = static_cast<task_type*>(op);
+          if (task->stopped_)
+          {
+            // the stop command has overtaken the schedule command
+            task->set_stopped_(task);
+            continue;
+          }
           task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
           heap_.insert(task);
         }
@@ -167,6 +175,10 @@ namespace experimental::execution
           {
             stop_op->target_->set_stopped_(stop_op->target_);
           }
+          else
+          {
+            stop_op->target_->stopped_ = true;
+          }
           stop_op->set_value_(stop_op);
         }
       }
-- 
2.43.0


From 51abf9c63ffa82e499a84f5c61d256226e764f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 09/69] fix: order completions of timers and keep the
 timed_thread_context alive while stop callbacks use it

---
 include/exec/timed_thread_scheduler.hpp | 41 ++++++++++++++++++-------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 6a90c70..38f05df 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -209,6 +209,7 @@ namespace experimental::execution
           while (
             !n_submissions_in_flight_.compare_exchange_weak(expected,
                                                             context_closed,
+                                                            STDEXEC::__std::memory_order_acquire,
                                                             STDEXEC::__std::memory_order_relaxed))
           {
             STDEXEC::__spin_loop_pause();
@@ -223,6 +224,12 @@ namespace experimental::execution
             op->set_stopped_(op);
             op = heap_.front();
           }
+          // threads that are still inside schedule() or request_stop() access this context
+          while (n_submissions_in_flight_.load(STDEXEC::__std::memory_order_acquire)
+                 != context_closed)
+          {
+            STDEXEC::__spin_loop_pause();
+          }
           break;
         }
       }
@@ -230,8 +237,7 @@ namespace experimental::execution
 
     void schedule(command_type* op)
     {
-      std::ptrdiff_t n = n_submissions_in_flight_.fetch_add(1,
-                                                            STDEXEC::__std::memory_order_relaxed);
+      std::ptrdiff_t n = begin_submission();
       if (n < 0)
       {
         if (op->command_ == command_type::command_type::schedule)
@@ -243,9 +249,7 @@ namespace experimental::execution
           STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
           static_cast<stop_type*>(op)->set_value_(op);
         }
-        n_submissions_in_flight_.compare_exchange_strong(n,
-                                                         context_closed,
-                                                         STDEXEC::__std::memory_order_relaxed);
+        end_submission();
         return;
       }
       if (command_queue_.push_back(op))
@@ -254,7 +258,18 @@ namespace experimental::execution
         ready_ = true;
         cv_.notify_one();
       }
-      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+      end_submission();
+    }
+
+    // The context is not destroyed between begin_submission() and end_submission().
+    auto begin_submission() noexcept -> std::ptrdiff_t
+    {
+      return n_submissions_in_flight_.fetch_add(1, STDEXEC::__std::memory_order_acquire);
+    }
+
+    void end_submission() noexcept
+    {
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
     }
 
     void request_stop()
@@ -296,7 +311,7 @@ namespace experimental::execution
             [](_time_thrd_sched::timed_thread_operation_base* op) noexcept
             {
               auto* self    = static_cast<timed_thread_schedule_at_op*>(op);
-              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel);
               if (counter == 1)
               {
                 self->stop_callback_.reset();
@@ -306,7 +321,7 @@ namespace experimental::execution
             [](_time_thrd_sched::timed_thread_operation_base* op) noexcept
             {
               auto* self    = static_cast<timed_thread_schedule_at_op*>(op);
-              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel);
               if (counter == 1)
               {
                 self->stop_callback_.reset();
@@ -320,7 +335,7 @@ namespace experimental::execution
                      auto* stop = static_cast<_time_thrd_sched::timed_thread_stop_operation*>(op);
                      auto* self = static_cast<timed_thread_schedule_at_op*>(stop->target_);
                      int   counter = self->ref_count_.fetch_sub(1,
-                                                              STDEXEC::__std::memory_order_relaxed);
+                                                              STDEXEC::__std::memory_order_acq_rel);
                      if (counter == 1)
                      {
                        self->stop_callback_.reset();
@@ -367,10 +382,14 @@ namespace experimental::execution
 
       constexpr void request_stop() noexcept
       {
-        if (ref_count_.fetch_add(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        // Once the reference count is incremented the context does not wait for this callback any more
+        timed_thread_context& context = context_;
+        context.begin_submission();
+        if (ref_count_.fetch_add(1, STDEXEC::__std::memory_order_acq_rel) == 1)
         {
-          context_.schedule(&stop_op_);
+          context.schedule(&stop_op_);
         }
+        context.end_submission();
       }
 
       timed_thread_context&                         context_;
-- 
2.43.0


From 9a882e0c33f7f6270d4f83a62ca6124bff3bb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 10/69] fix: a stop request that races with the last arrival
 must not complete when_all twice

---
 include/stdexec/__detail/__when_all.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__when_all.hpp b/include/stdexec/__detail/__when_all.hpp
index 305bf4f..bcb0575 100644
--- a/include/stdexec/__detail/__when_all.hpp
+++ b/include/stdexec/__detail/__when_all.hpp
@@ -565,8 +565,20 @@ namespace STDEXEC
       constexpr void operator()() const noexcept
       {
         // Temporarily increment the count to avoid concurrent/recursive arrivals to
-        // pull the rug under our feet. Relaxed memory order is fine here.
-        __state_->__count_.fetch_add(1, __std::memory_order_relaxed);
+        // pull the rug under our feet. Relaxed memory order is fine here. If the count
+        // is already zero then the last child is completing the operation, and is about
+        // to wait for this callback: it must not be incremented again.
+        std::size_t __count = __state_->__count_.load(__std::memory_order_relaxed);
+        do
+        {
+          if (__count == 0)
+          {
+            return;
+          }
+        }
+        while (!__state_->__count_.compare_exchange_weak(__count,
+                                                         __count + 1,
+                                                         __std::memory_order_relaxed));
 
         __state_t __expected = __started;
         // Transition to the "stopped" state if and only if we're in the
-- 
2.43.0


From b5020d2f62dfb514f366b70680f757fd33457a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 11/69] fix: a stop request that completes a spawn_future's
 operation must not destroy the state it runs in

---
 include/stdexec/__detail/__spawn_future.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/stdexec/__detail/__spawn_future.hpp b/include/stdexec/__detail/__spawn_future.hpp
index fd74006..3047cc5 100644
--- a/include/stdexec/__detail/__spawn_future.hpp
+++ b/include/stdexec/__detail/__spawn_future.hpp
@@ -375,8 +375,18 @@ namespace STDEXEC
       // before the producer could finish.
       void (*__callback_)(__spawn_future_state*, void*) noexcept;
 
+      // The number of parties that keep this object alive: the producer and consumer share one
+      // reference, and __try_cancel holds one while it runs because the operation it asks to stop
+      // may complete, and complete the future, before request_stop returns.
+      __std::atomic<int> __refs_{1};
+
       void __destroy() noexcept
       {
+        if (__refs_.fetch_sub(1, __std::memory_order_acq_rel) != 1)
+        {
+          return;
+        }
+
         [[maybe_unused]]
         auto __assoc = std::move(__assoc_);
 
@@ -459,6 +469,11 @@ namespace STDEXEC
       {
         auto* __self = static_cast<__spawn_future_state*>(__base_ptr);
 
+        // Invoking request_stop may complete the operation on this thread, and with it the future,
+        // so keep the object alive until we are done with it.
+        __self->__refs_.fetch_add(1, __std::memory_order_relaxed);
+        __scope_guard __guard{[__self]() noexcept { __self->__destroy(); }};
+
         // Consider: there's a sense in which we only need to invoke request_stop if we've arrived
         //           here before the producer has invoked __complete so I wonder whether it's possible
         //           to avoid invoking request_stop when it's unnecessary. It might be.
-- 
2.43.0


From 54440505fb620c3de4535bee582875a2accf22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 12/69] fix: a dropped async_scope future must deregister its
 stop callback before it gives up the state

---
 include/exec/async_scope.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/exec/async_scope.hpp b/include/exec/async_scope.hpp
index 7635dbb..024ab33 100644
--- a/include/exec/async_scope.hpp
+++ b/include/exec/async_scope.hpp
@@ -384,6 +384,9 @@ namespace experimental::execution
       {
         if (__state_ != nullptr)
         {
+          // Deregister first: once the state is handed over, the spawned operation may delete it,
+          // and with it the stop source that the callback uses.
+          __forward_consumer_.reset();
           auto             __raw_state = __state_.get();
           std::unique_lock __guard{__raw_state->__mutex_};
           if (__raw_state->__data_.index() > 0)
-- 
2.43.0


From 235a03f17648e668f8f033e2b2612b7d85cfa917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 13/69] fix: transform_sender must not claim to be noexcept
 when only its last step is

---
 include/stdexec/__detail/__transform_sender.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__transform_sender.hpp b/include/stdexec/__detail/__transform_sender.hpp
index 88f2151..3d365cd 100644
--- a/include/stdexec/__detail/__transform_sender.hpp
+++ b/include/stdexec/__detail/__transform_sender.hpp
@@ -64,7 +64,7 @@ namespace STDEXEC
         }
         else if constexpr (__same_as<__result_t, _Sndr>)
         {
-          return __declfn<__result_t, __is_nothrow>();
+          return __declfn<__result_t, (_Nothrow && __is_nothrow)>();
         }
         else if constexpr (__same_as<_OpTag, start_t>)
         {
-- 
2.43.0


From 4d941779eda2c872b84e7b07ab0ea969e7c2182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 14/69] fix: a stopped split operation must deregister its stop
 callback before it completes

---
 include/exec/detail/shared.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index 58407d9..ac9ff90 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -231,6 +231,10 @@ namespace experimental::execution::__shared
       // __notify function is called from the shared state's __notify_waiters function, which
       // first sets __waiters_ to the completed state. As a result, the attempt to remove `this`
       // from the waiters list above will fail and this stop request is ignored.
+
+      // Deregister the callback first: once the operation is complete, the stop source may be gone
+      // by the time this operation state is destroyed.
+      __on_stop_.reset();
       std::exchange(__sh_state_, {})->__detach();
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
-- 
2.43.0


From decef5cbfcd0566dec2782e3c78a25a9b1fb1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 15/69] fix: the last consumers of a split operation to leave
 together must still request stop of it

---
 include/exec/detail/shared.hpp | 50 +++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index ac9ff90..8c94ab6 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -417,14 +417,18 @@ namespace experimental::execution::__shared
       }
     }
 
-    constexpr void __detach() noexcept
+    void __attach() noexcept
     {
-      // increments the use count:
-      auto __started_ptr = __started_ref_.load();
-      // If the use count is 3 (one for *this, one for __started_ref_, and one for
-      // __started_ptr), then we are the final "consumer". Ask the operation to stop
-      // early.
-      if (3 == __started_ptr.use_count())
+      __consumers_.fetch_add(1, __std::memory_order_relaxed);
+    }
+
+    void __detach() noexcept
+    {
+      // If this is the last "consumer" (sender or operation state) of an operation that is still
+      // running, ask the operation to stop early. The use count of the shared state cannot tell:
+      // two consumers that detach at the same time would each still see the other's reference.
+      if (1 == __consumers_.fetch_sub(1, __std::memory_order_acq_rel)
+          && nullptr != __started_ref_.load())
       {
         this->__stop_source_.request_stop();
       }
@@ -436,6 +440,8 @@ namespace experimental::execution::__shared
     }
 
     __std::atomic_flag __started_{};
+    // the number of senders and operation states that refer to this state:
+    __std::atomic<std::size_t> __consumers_{1};
     // this shared_ptr is non-null when the operation is running:
     __std::__atomic_shared_ptr<__shared_state> __started_ref_;
     connect_result_t<_CvSender, __receiver_t>  __shared_op_;
@@ -496,11 +502,30 @@ namespace experimental::execution::__shared
           __shared::__mk_sh_state(static_cast<_CvChild&&>(__child), static_cast<_Env&&>(__env)))
     {}
 
-    __sndr(__sndr&&)            = default;
-    __sndr& operator=(__sndr&&) = default;
+    __sndr(__sndr&&) = default;
 
-    __sndr(__sndr const &)            = default;
-    __sndr& operator=(__sndr const &) = default;
+    __sndr& operator=(__sndr&& __other) noexcept
+    {
+      __sndr(std::move(__other)).__sh_state_.swap(__sh_state_);
+      return *this;
+    }
+
+    __sndr(__sndr const & __other) noexcept
+      requires __same_as<_Tag, split_t>
+      : __sh_state_(__other.__sh_state_)
+    {
+      if (__sh_state_)
+      {
+        __sh_state_->__attach();
+      }
+    }
+
+    __sndr& operator=(__sndr const & __other) noexcept
+      requires __same_as<_Tag, split_t>
+    {
+      __sndr(__other).__sh_state_.swap(__sh_state_);
+      return *this;
+    }
 
     constexpr ~__sndr()
     {
@@ -529,8 +554,7 @@ namespace experimental::execution::__shared
     constexpr auto connect(_Receiver __rcvr) const & noexcept  //
       -> __local_state<_Tag, _CvChild, _Env, _Receiver>
     {
-      return __local_state<_Tag, _CvChild, _Env, _Receiver>{__sh_state_,
-                                                            static_cast<_Receiver&&>(__rcvr)};
+      return __sndr(*this).connect(static_cast<_Receiver&&>(__rcvr));
     }
 
    private:
-- 
2.43.0


From 625c5a9adc98b3da473771d4bfc18df75896f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 16/69] fix: a stop request that races with the last arrival
 must not complete when_any twice

---
 include/exec/when_any.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 1e1a58b..8bc0149 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -88,8 +88,20 @@ namespace experimental::execution
         constexpr void operator()() const noexcept
         {
           // Temporarily increment the count to avoid concurrent/recursive arrivals to
-          // pull the rug under our feet. Relaxed memory order is fine here.
-          __op_->__count_.fetch_add(1, __std::memory_order_relaxed);
+          // pull the rug under our feet. Relaxed memory order is fine here. If the count
+          // is already zero then the last child is completing the operation, and is about
+          // to wait for this callback: it must not be incremented again.
+          std::size_t __count = __op_->__count_.load(__std::memory_order_relaxed);
+          do
+          {
+            if (__count == 0)
+            {
+              return;
+            }
+          }
+          while (!__op_->__count_.compare_exchange_weak(__count,
+                                                        __count + 1,
+                                                        __std::memory_order_relaxed));
 
           __op_->__stop_source_.request_stop();
 
-- 
2.43.0


From b410be8732d259996d6c7106db41e3f7e04ba814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 17/69] fix: when_any must deregister its stop callback before
 it completes from start

---
 include/exec/when_any.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 8bc0149..cbb7431 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -240,6 +240,9 @@ namespace experimental::execution
                                  typename __op_base_t::__forward_stop_request{this});
         if (this->__stop_source_.stop_requested())
         {
+          // The callback may be registered, or running on another thread: it must be gone before
+          // the operation completes.
+          this->__on_stop_.reset();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
-- 
2.43.0


From 161f82e6cdd6d65c9315ae82ba43eb7415b5fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 18/69] fix: connecting a fork_join sender may throw and must
 not claim otherwise

---
 include/exec/fork_join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index f2b1f71..8279e56 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -130,7 +130,7 @@ namespace experimental::execution
       using _cache_sndr_t = _fork_join::_cache_sndr_t<_variant_t<_child_completions_t>, _domain_t>;
 
       STDEXEC_ATTRIBUTE(host, device)
-      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr) noexcept
+      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr)
         : _rcvr_(static_cast<Rcvr&&>(rcvr))
         , _fork_opstate_(STDEXEC::connect(STDEXEC::__apply(_mk_when_all_fn{},
                                                            static_cast<Closures&&>(closures),
@@ -266,7 +266,7 @@ namespace experimental::execution
       }
 
       static constexpr auto __connect =
-        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr) noexcept
+        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr)
         -> _fork_join::_opstate_t<STDEXEC::__child_of<_Sender>,
                                   STDEXEC::__data_of<_Sender>,
                                   _Receiver>
-- 
2.43.0


From 5a6807ae0384a406ee68d545e7a849ea3f24b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 19/69] fix: connecting a finally sender may throw and must not
 claim otherwise

---
 include/stdexec/__detail/__finally.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 82565d3..884bd05 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -167,7 +167,8 @@ namespace STDEXEC
       constexpr explicit __final_opstate(__cleanup_callback_t* __cleanup_callback,
                                          _CvFinalSender&&      __final,
                                          _Receiver&&           __rcvr,
-                                         _Env2                 __env2) noexcept
+                                         _Env2                 __env2)
+        noexcept(__nothrow_connectable<_CvFinalSender, __final_receiver_t>)
         : __opstate_base<_Storage, _Receiver, _Env2>{static_cast<_Receiver&&>(__rcvr),
                                                      static_cast<_Env2&&>(__env2)}
         , __cleanup_callback_{__cleanup_callback}
@@ -226,10 +227,18 @@ namespace STDEXEC
       using __base_t            = __final_opstate_t<_CvInitialSender, _CvFinalSender, _Receiver>;
       using __initial_results_t = __base_t::__results_t;
       using __cv_fn             = __copy_cvref_fn<_CvInitialSender>;
+      using __initial_receiver_t =
+        __initial_receiver<_CvFinalSender, __initial_results_t, _Receiver, __env2_t>;
 
       constexpr explicit __opstate(_CvInitialSender&& __initial,
                                    _CvFinalSender&&   __final,
                                    _Receiver          __rcvr)
+        noexcept(__nothrow_constructible_from<__base_t,
+                                              typename __base_t::__cleanup_callback_t*,
+                                              _CvFinalSender,
+                                              _Receiver,
+                                              __env2_t>
+                 && __nothrow_connectable<_CvInitialSender, __initial_receiver_t>)
         : __base_t(&__cleanup_initial_opstate,
                    static_cast<_CvFinalSender&&>(__final),
                    static_cast<_Receiver&&>(__rcvr),
@@ -246,8 +255,6 @@ namespace STDEXEC
       }
 
      private:
-      using __initial_receiver_t =
-        __initial_receiver<_CvFinalSender, __initial_results_t, _Receiver, __env2_t>;
       using __initial_opstate_t = connect_result_t<_CvInitialSender, __initial_receiver_t>;
 
       static constexpr void __cleanup_initial_opstate(__base_t* __base) noexcept
@@ -359,8 +366,11 @@ namespace STDEXEC
 
       template <__decays_to<__sender> _Self, class _Receiver>
       STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self,
-                                                _Receiver&&  __receiver) noexcept
-        -> __opstate_t<_Self, _Receiver>
+                                                _Receiver&&  __receiver)
+        noexcept(__nothrow_constructible_from<__opstate_t<_Self, _Receiver>,
+                                              __copy_cvref_t<_Self, _InitialSender>,
+                                              __copy_cvref_t<_Self, _FinalSender>,
+                                              _Receiver>) -> __opstate_t<_Self, _Receiver>
       {
         return __opstate_t<_Self, _Receiver>{static_cast<_Self&&>(__self).__initial_sndr_,
                                              static_cast<_Self&&>(__self).__final_sndr_,
-- 
2.43.0


From 3c2721097bfd94030021867506162c5d14c03a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 20/69] fix: a let sender's callable may throw when it is moved
 into the operation state

---
 include/stdexec/__detail/__let.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 9777fcc..5304f2e 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -174,7 +174,8 @@ namespace STDEXEC
                                         _CvFn           __cv,
                                         _Sender const & __sndr,
                                         _Fun            __fn,
-                                        _Receiver&&     __rcvr) noexcept
+                                        _Receiver&&     __rcvr)
+        noexcept(__nothrow_move_constructible<_Fun>)
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
-- 
2.43.0


From 0f6f8f0daa5d7c33b48b20a065f4639e5516e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 21/69] fix: finally must advertise the exception it sends when
 storing an error throws

---
 include/stdexec/__detail/__finally.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 884bd05..7d45090 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -345,7 +345,8 @@ namespace STDEXEC
               // ... the initial sender's completions with value types decayed ...
               STDEXEC::__transform_completion_signatures(
                 __initial_completions,
-                __decay_arguments<set_value_t, __finally_t>()),
+                __decay_arguments<set_value_t, __finally_t>(),
+                __decay_arguments<set_error_t, __finally_t>()),
               // ... and the final sender's error and stopped completions ...
               STDEXEC::__transform_completion_signatures(__final_completions,
                                                          __ignore_completion()));
-- 
2.43.0


From 83d66332671a9f7927b9007ad6bf29caa87cba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 22/69] fix: a stop callback may lead to the destruction of the
 inplace_stop_source that invokes it

---
 include/stdexec/stop_token.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index b75084a..64ecfe6 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -158,6 +158,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     mutable STDEXEC::__std::atomic<uint8_t>                __state_{0};
     mutable STDEXEC::__stok::__inplace_stop_callback_base* __callbacks_ = nullptr;
     std::thread::id                                        __notifying_thread_;
+    // Points into request_stop() while it executes the callbacks. Once stop has been requested no
+    // callback can be added, so the list stays empty once the last one has been removed from it:
+    mutable STDEXEC::__std::atomic<bool>* __no_more_callbacks_ = nullptr;
   };
 
   // [stoptoken.inplace], class inplace_stop_token
@@ -276,6 +279,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
       if (__callbacks_ != nullptr)
         __callbacks_->__prev_ptr_ = &__callbacks_;
 
+      STDEXEC::__std::atomic<bool> __no_more_callbacks{__callbacks_ == nullptr};
+      __no_more_callbacks_ = &__no_more_callbacks;
+
       __state_.store(__stop_requested_flag_, STDEXEC::__std::memory_order_release);
 
       bool __removed_during_callback       = false;
@@ -289,6 +295,12 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
         __callbk->__callback_completed_.store(true, STDEXEC::__std::memory_order_release);
       }
 
+      // The callback may have completed the operation that owns this stop source, which may have
+      // been destroyed since. It has removed all its callbacks if so. Do not touch the stop source
+      // when there is nothing left to execute.
+      if (__no_more_callbacks.load(STDEXEC::__std::memory_order_acquire))
+        return true;
+
       __lock_();
     }
 
@@ -392,6 +404,10 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
       {
         __callbk->__next_->__prev_ptr_ = __callbk->__prev_ptr_;
       }
+      if (__callbacks_ == nullptr && __no_more_callbacks_ != nullptr)
+      {
+        __no_more_callbacks_->store(true, STDEXEC::__std::memory_order_release);
+      }
       __unlock_(__old_state);
     }
     else
-- 
2.43.0


From c2e747e3c036fcb759810767d605cecd2ca698ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 23/69] fix: read_with_default senders must be connectable as
 lvalues and admit that it may throw

---
 include/exec/env.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/exec/env.hpp b/include/exec/env.hpp
index 455c298..a95978e 100644
--- a/include/exec/env.hpp
+++ b/include/exec/env.hpp
@@ -134,9 +134,10 @@ namespace experimental::execution
     template <class _Query, class _Default, class _Receiver>
     struct __opstate
     {
-      constexpr explicit __opstate(_Default&& __default, _Receiver&& __rcvr)
-        noexcept(__nothrow_move_constructible<_Default>)
-        : __default_(static_cast<_Default&&>(__default))
+      template <class _CvDefault>
+      constexpr explicit __opstate(_CvDefault&& __default, _Receiver&& __rcvr)
+        noexcept(__nothrow_constructible_from<_Default, _CvDefault>)
+        : __default_(static_cast<_CvDefault&&>(__default))
         , __rcvr_(static_cast<_Receiver&&>(__rcvr))
       {}
 
@@ -180,7 +181,9 @@ namespace experimental::execution
 
       template <__decays_to<__sender> _Self, class _Receiver>
       constexpr STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self, _Receiver __rcvr)
-        noexcept(std::is_nothrow_move_constructible_v<_Receiver>)
+        noexcept(std::is_nothrow_move_constructible_v<_Receiver>
+                 && __nothrow_constructible_from<__default_t<env_of_t<_Receiver>>,
+                                                 __copy_cvref_t<_Self, _Default>>)
           -> __opstate<_Query, __default_t<env_of_t<_Receiver>>, _Receiver>
       {
         using __opstate_t = __opstate<_Query, __default_t<env_of_t<_Receiver>>, _Receiver>;
-- 
2.43.0


From 0036c3141df7f151019d957b0dfbb97b9080ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 24/69] fix: a just sender connected through a const reference
 must deliver what it advertises

---
 include/stdexec/__detail/__just.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__just.hpp b/include/stdexec/__detail/__just.hpp
index 56df532..eae4f2e 100644
--- a/include/stdexec/__detail/__just.hpp
+++ b/include/stdexec/__detail/__just.hpp
@@ -86,9 +86,9 @@ namespace STDEXEC
           __nothrow_decay_copyable<_Sender>)
       {
         auto& [__tag, __data] = __sndr;
-        return __opstate<__set_tag_t, decltype(__data), _Receiver>{static_cast<_Receiver&&>(__rcvr),
-                                                                   STDEXEC::__forward_like<_Sender>(
-                                                                     __data)};
+        return __opstate<__set_tag_t, __decay_t<decltype(__data)>, _Receiver>{
+          static_cast<_Receiver&&>(__rcvr),
+          STDEXEC::__forward_like<_Sender>(__data)};
       };
     };
   }  // namespace __just
-- 
2.43.0


From bc6980fe54f5f0779f738affede3c2b41e547a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 25/69] fix: copying a variant whose alternative's copy throws
 must not terminate

---
 include/stdexec/__detail/__variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__variant.hpp b/include/stdexec/__detail/__variant.hpp
index 721ea18..850db2e 100644
--- a/include/stdexec/__detail/__variant.hpp
+++ b/include/stdexec/__detail/__variant.hpp
@@ -154,7 +154,7 @@ namespace STDEXEC
       {
         template <class _Self, class _Ty>
         constexpr void operator()(_Self &__self, _Ty const &__val) const  //
-          noexcept(__nothrow_decay_copyable<_Ty>)
+          noexcept(__nothrow_decay_copyable<_Ty const &>)
         {
           __self.template emplace<__decay_t<_Ty>>(__val);
         }
-- 
2.43.0


From 577c55d52839b78948d65045d9d06d5a06e35fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:09 +0000
Subject: [PATCH 26/69] fix: a sequence must not name a completion scheduler
 the other sender may bypass

---
 include/stdexec/__detail/__sequence.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__sequence.hpp b/include/stdexec/__detail/__sequence.hpp
index e4c61fd..caa7b02 100644
--- a/include/stdexec/__detail/__sequence.hpp
+++ b/include/stdexec/__detail/__sequence.hpp
@@ -112,10 +112,14 @@ namespace STDEXEC
       }
 
       // We only know the error or stopped completion scheduler if exactly one of the two
-      // senders knows its error/stopped completion scheduler.
+      // senders knows its error/stopped completion scheduler, and the other one never
+      // completes that way.
       template <__one_of<set_error_t, set_stopped_t> _Tag, class... _Env>
         requires(__has_completion_scheduler_for<_Tag, _CvSender1, __fwd_env_t<_Env>...>
                  != __has_completion_scheduler_for<_Tag, _CvSender2, __env2_t<_Env>...>)
+             && (__has_completion_scheduler_for<_Tag, _CvSender2, __env2_t<_Env>...>
+                   ? __never_sends<_Tag, _CvSender1, __fwd_env_t<_Env>...>
+                   : __never_sends<_Tag, _CvSender2, __env2_t<_Env>...>)
       [[nodiscard]]
       constexpr auto query(get_completion_scheduler_t<_Tag>, _Env &&...__env) const noexcept
       {
-- 
2.43.0


From 9de3b971ced0daa426cc91d3152de8356001e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 27/69] fix: merge_each must complete the outer item when its
 sender fails, is stopped or its sequence cannot be subscribed

---
 include/exec/sequence/merge_each.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 397e312..90a9f4b 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1029,7 +1029,7 @@ namespace experimental::execution
           if constexpr (!__is_nothrow)
           {
             __op_->store_error(std::current_exception());
-            __op_->nested_sequence_break();
+            __next_seq_op_->nested_sequence_break();
           }
         }
       }
@@ -1038,12 +1038,12 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         __op_->store_error(static_cast<_Error&&>(__error));
-        __op_->nested_sequence_break();
+        __next_seq_op_->nested_sequence_break();
       }
 
       void set_stopped() noexcept
       {
-        __op_->nested_sequence_complete();
+        __next_seq_op_->nested_sequence_complete();
       }
 
       using __env_t = typename _OperationBase::__nested_stop_env_t;
-- 
2.43.0


From 1a2b4ae68260ee587b37fbddc8243e0873d07d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 28/69] fix: merge_each must not wrap the exception_ptr of a
 failing outer sequence in another exception_ptr

---
 include/exec/sequence/merge_each.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 90a9f4b..d005855 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -362,7 +362,11 @@ namespace experimental::execution
         case __completion_t::__stopped:
           // We are the first child to complete with an error, so we must save the error. (Any
           // subsequent errors are ignored.)
-          if constexpr (__nothrow_decay_copyable<_Error>)
+          if constexpr (__same_as<__decay_t<_Error>, std::exception_ptr>)
+          {
+            __ex_ = static_cast<_Error&&>(__error);
+          }
+          else if constexpr (__nothrow_decay_copyable<_Error>)
           {
             __ex_ = std::make_exception_ptr(static_cast<_Error&&>(__error));
           }
-- 
2.43.0


From 4b38103f1603d08bca4539b13e41c8b6666b4bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 29/69] fix: merge_each must stop the remaining sequences after
 an error even if its receiver cannot be stopped

---
 include/exec/sequence/merge_each.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index d005855..76b5a44 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -116,20 +116,12 @@ namespace experimental::execution
 
       bool stop_requested() const noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.stop_requested();
-        }
-        return false;
+        return __stop_source_.stop_requested();
       }
 
       bool request_stop() noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.request_stop();
-        }
-        return false;
+        return __stop_source_.request_stop();
       }
 
       inplace_stop_token get_token() const & noexcept
-- 
2.43.0


From 3566495cdde764495b37efbae01d693a9080e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 30/69] fix: merge_each must keep an item's error before it
 lets the item's operation go

---
 include/exec/sequence/merge_each.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 76b5a44..b28de11 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -569,8 +569,9 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         auto __op = __op_;
-        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
+        // Completing the item may destroy the operation state that the error lives in.
         __op->store_error(static_cast<_Error&&>(__error));
+        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
         __op->nested_value_break();
       }
 
-- 
2.43.0


From 9fbb5bd00024da9420e2d3aa0680f2573ee50667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 31/69] fix: merge_each must deregister its stop callback when
 it is stopped before it starts

---
 include/exec/sequence/merge_each.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index b28de11..2dfe23d 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1186,6 +1186,7 @@ namespace experimental::execution
         this->__nested_stop_.register_token(this->__rcvr_);
         if (this->__nested_stop_.stop_requested())
         {
+          this->__nested_stop_.unregister_token();
           // Stop has already been requested. Don't bother starting
           // the child operations.
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
-- 
2.43.0


From a40ef93ab3629b47e2e13eef9269bf2d3d6913de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 32/69] fix: iterate must end when stop is requested even if
 its consumer answers stopped items with go on

---
 include/exec/sequence/iterate.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/exec/sequence/iterate.hpp b/include/exec/sequence/iterate.hpp
index a85f37c..ff2bcd3 100644
--- a/include/exec/sequence/iterate.hpp
+++ b/include/exec/sequence/iterate.hpp
@@ -148,6 +148,11 @@ namespace experimental::execution
         {
           STDEXEC::set_value(static_cast<_Receiver&&>(this->__rcvr_));
         }
+        else if (STDEXEC::get_stop_token(STDEXEC::get_env(this->__rcvr_)).stop_requested())
+        {
+          // The item would be stopped without being taken from the range, again and again.
+          STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
+        }
         else
         {
           STDEXEC_TRY
-- 
2.43.0


From 08cbebe7a77b8d66d248f68b9d0b124198c4341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:20 +0000
Subject: [PATCH 33/69] fix: ignore_all_values must not terminate when copying
 an item's error throws

---
 include/exec/sequence/ignore_all_values.hpp | 50 +++++++++++++++++++--
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/include/exec/sequence/ignore_all_values.hpp b/include/exec/sequence/ignore_all_values.hpp
index 0ca0e9d..efbe415 100644
--- a/include/exec/sequence/ignore_all_values.hpp
+++ b/include/exec/sequence/ignore_all_values.hpp
@@ -67,7 +67,23 @@ namespace experimental::execution
         int __expected = 0;
         if (__emplaced_.compare_exchange_strong(__expected, 1, __std::memory_order_relaxed))
         {
-          __result_.template emplace<__decayed_tuple<_Args...>>(static_cast<_Args&&>(__args)...);
+          if constexpr (__nothrow_decay_copyable<_Args...>)
+          {
+            __result_.template emplace<__decayed_tuple<_Args...>>(static_cast<_Args&&>(__args)...);
+          }
+          else
+          {
+            STDEXEC_TRY
+            {
+              __result_.template emplace<__decayed_tuple<_Args...>>(static_cast<_Args&&>(__args)...);
+            }
+            STDEXEC_CATCH_ALL
+            {
+              __result_.template emplace<__tuple<set_error_t, std::exception_ptr>>(
+                set_error,
+                std::current_exception());
+            }
+          }
           __emplaced_.store(2, __std::memory_order_release);
         }
       }
@@ -252,10 +268,26 @@ namespace experimental::execution
       __mbool<__same_as<set_value_t, __signature_tag_t<_Signature>>>;
 
     // Storage for the non-set_value completions
+    // The completions of the sequence and of its items that are not values.
+    template <class _Completions>
+    using __non_value_completions_t =
+      __mapply<__mremove_if<__q1<__is_set_value_signature_t>, __qq<completion_signatures>>,
+               _Completions>;
+
+    // Copying an error to keep it until the sequence has completed may throw.
+    template <class _Completions>
+    using __eptr_completion_t = __eptr_completion_unless_t<
+      __nothrow_decay_copyable_results_t<__non_value_completions_t<_Completions>>>;
+
+    template <class _Completions>
+    using __result_variant_for_t =
+      __mapply_q<__results_storage,
+                 __concat_completion_signatures_t<__non_value_completions_t<_Completions>,
+                                                  __eptr_completion_t<_Completions>>>;
+
     template <class _Sender, class _Env>
     using __result_variant_t =
-      __mapply<__mremove_if<__q1<__is_set_value_signature_t>, __qq<__results_storage>>,
-               __sequence_completion_signatures_of_t<_Sender, _Env>>;
+      __result_variant_for_t<__sequence_completion_signatures_of_t<_Sender, _Env>>;
 
     template <class _Sender, class _Receiver>
     struct __operation
@@ -317,7 +349,17 @@ namespace experimental::execution
       static consteval auto __get_completion_signatures()
       {
         static_assert(sender_for<_Sender, ignore_all_values_t>);
-        return __sequence_completion_signatures_of<__child_of<_Sender>, _Env...>();
+        auto __completions = __sequence_completion_signatures_of<__child_of<_Sender>, _Env...>();
+        if constexpr (__merror<decltype(__completions)>)
+        {
+          return __completions;
+        }
+        else
+        {
+          return exec::concat_completion_signatures(
+            __completions,
+            __eptr_completion_t<decltype(__completions)>());
+        }
       }
 
       static constexpr auto __connect =
-- 
2.43.0


From e057d5cd5dffa9f8d11782a54a55eb00b1212cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 34/69] fix: a stopped exec::task must not leave its stop
 callback registered with its awaiter's token

---
 include/exec/task.hpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 1b0cbda..a155d1a 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -250,7 +250,8 @@ namespace experimental::execution
         // Register a callback that will request stop on this basic_task's
         // stop_source when stop is requested on the parent coroutine's stop
         // token.
-        : __stop_callback_{get_stop_token(get_env(__parent)),
+        : __stop_callback_{std::in_place,
+                           get_stop_token(get_env(__parent)),
                            __forward_stop_request{__stop_source_}}
       {
         static_assert(std::is_nothrow_constructible_v<__stop_callback_t,
@@ -259,8 +260,15 @@ namespace experimental::execution
         __self.__stop_token_ = __stop_source_.get_token();
       }
 
-      inplace_stop_source __stop_source_{};
-      __stop_callback_t   __stop_callback_;
+      // The parent's stop token must not be used once the parent has been told that the task was
+      // stopped. The stop source stays: locals of the task may still refer to it.
+      constexpr void __reset_stop_callback() noexcept
+      {
+        __stop_callback_.reset();
+      }
+
+      inplace_stop_source           __stop_source_{};
+      __optional<__stop_callback_t> __stop_callback_;
     };
 
     // If the parent coroutine's type has a stop token of type inplace_stop_token,
@@ -645,8 +653,20 @@ namespace experimental::execution
           return *__context_;
         }
 
+        [[nodiscard]]
+        constexpr auto unhandled_stopped() noexcept -> __std::coroutine_handle<>
+        {
+          if (__on_stopped_ != nullptr)
+          {
+            __on_stopped_(__awaiter_);
+          }
+          return with_awaitable_senders<__promise>::unhandled_stopped();
+        }
+
         __optional<__promise_context_t> __context_{};
         bool                            __rescheduled_{false};
+        void*                           __awaiter_{nullptr};
+        void (*__on_stopped_)(void*) noexcept {nullptr};
       };
 
       template <class _ParentPromise>
@@ -676,10 +696,18 @@ namespace experimental::execution
           __coro_.promise().__context_.emplace(__parent.promise());
           __context_.emplace(*__coro_.promise().__context_, __parent.promise());
           __coro_.promise().set_continuation(__parent);
+          if constexpr (requires { __context_->__reset_stop_callback(); })
+          {
+            __coro_.promise().__awaiter_    = this;
+            __coro_.promise().__on_stopped_ = [](void* __self) noexcept
+            {
+              static_cast<__task_awaiter*>(__self)->__context_->__reset_stop_callback();
+            };
+          }
           if constexpr (requires { __coro_.promise().stop_requested() ? 0 : 1; })
           {
             if (__coro_.promise().stop_requested())
-              return STDEXEC::__coroutine_unhandled_stopped(__parent);
+              return __coro_.promise().unhandled_stopped();
           }
           return __coro_;
         }
-- 
2.43.0


From 13bd9588dfaf2a047fbe382a24cad9ead75fad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 35/69] fix: awaiting a sender from a task must throw, not
 terminate, if connecting it throws

---
 include/exec/task.hpp               | 6 +++---
 include/stdexec/__detail/__task.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index a155d1a..55ffc84 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -608,7 +608,7 @@ namespace experimental::execution
 #ifndef __clang_analyzer__
         template <sender _CvSender>
           requires __start_scheduler_provider<_Context>
-        auto await_transform(_CvSender&& __sndr) noexcept -> decltype(auto)
+        auto await_transform(_CvSender&& __sndr) -> decltype(auto)
         {
           if constexpr (__completes_where_it_starts<set_value_t,
                                                     env_of_t<_CvSender>,
@@ -636,13 +636,13 @@ namespace experimental::execution
 #endif
 
         template <__sender_adaptor_closure_for<__just_void<__scheduler_t>> _Closure>
-        auto await_transform(_Closure&& __closure) noexcept -> decltype(auto)
+        auto await_transform(_Closure&& __closure) -> decltype(auto)
         {
           return await_transform(static_cast<_Closure&&>(__closure)(__just_void<__scheduler_t>()));
         }
 
         template <class _Awaitable>
-        constexpr auto await_transform(_Awaitable&& __awaitable) noexcept -> decltype(auto)
+        constexpr auto await_transform(_Awaitable&& __awaitable) -> decltype(auto)
         {
           return with_awaitable_senders<__promise>::await_transform(
             static_cast<_Awaitable&&>(__awaitable));
diff --git a/include/stdexec/__detail/__task.hpp b/include/stdexec/__detail/__task.hpp
index 66e1b43..578bbfd 100644
--- a/include/stdexec/__detail/__task.hpp
+++ b/include/stdexec/__detail/__task.hpp
@@ -718,7 +718,7 @@ namespace STDEXEC
     }
 
     template <sender _Sender>
-    constexpr auto await_transform(_Sender&& __sndr) noexcept
+    constexpr auto await_transform(_Sender&& __sndr)
     {
       using __schedule_sndr_t = schedule_result_t<start_scheduler_type>;
       if constexpr (__completes_where_it_starts<set_value_t, env_of_t<__schedule_sndr_t>, __env>)
-- 
2.43.0


From c26b980d0588f07aab93ad93e720030f8c9e94ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:48 +0000
Subject: [PATCH 36/69] fix: exec::task must stay on its scheduler when an
 awaited sender fails or is stopped elsewhere

---
 include/exec/task.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 55ffc84..432aed2 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -610,9 +610,9 @@ namespace experimental::execution
           requires __start_scheduler_provider<_Context>
         auto await_transform(_CvSender&& __sndr) -> decltype(auto)
         {
-          if constexpr (__completes_where_it_starts<set_value_t,
-                                                    env_of_t<_CvSender>,
-                                                    __promise_context_t&>)
+          // The task stays on its scheduler only if every way in which the sender can
+          // complete does.
+          if constexpr (__affine::__is_affine<_CvSender, __promise_context_t const &>)
           {
             return STDEXEC::as_awaitable(static_cast<_CvSender&&>(__sndr), *this);
           }
-- 
2.43.0


From 3be40f51e4ebf8868606bce0448d4fc087c203d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:48 +0000
Subject: [PATCH 37/69] fix: reschedule_coroutine_on must throw, not terminate,
 if it cannot connect to the scheduler

---
 include/exec/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 432aed2..5a0d36a 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -476,7 +476,7 @@ namespace experimental::execution
         }
       }
 
-      void await_resume() noexcept
+      void await_resume()
       {
         if (__eptr_)
         {
-- 
2.43.0


From 03fbccac5631ad922d0d3bfe9a057437d40ec8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:12 +0000
Subject: [PATCH 38/69] fix: a refused reschedule_coroutine_on must leave
 exec::task on the scheduler it has

---
 include/exec/task.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 5a0d36a..81a8d62 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -449,7 +449,7 @@ namespace experimental::execution
         {
           auto& __p = __h.promise();
 
-          if (!std::exchange(__p.__rescheduled_, true))
+          if (!__p.__rescheduled_)
           {
             // Create a cleanup action that transitions back onto the current scheduler:
             auto __sched = get_start_scheduler(*__p.__context_);
@@ -460,12 +460,14 @@ namespace experimental::execution
             // type __at_coro_exit::__task in at_coroutine_exit.hpp:
             __guard.await_suspend(__h);
             (void) __guard.await_resume();
+            __p.__rescheduled_ = true;
           }
 
-          __p.__context_->set_scheduler(__new_sched_);
           auto& __op = __opstate_.__emplace_from(STDEXEC::connect,
                                                  unstoppable(schedule(__new_sched_)),
                                                  __receiver_t{__eptr_, __h});
+          // Only a coroutine that is about to move gets its new scheduler.
+          __p.__context_->set_scheduler(__new_sched_);
           STDEXEC::start(__op);
           return true;  // suspend the coroutine until the scheduler operation completes
         }
-- 
2.43.0


From f4a0007384dd4902e9ac3a40ae5998dd1843e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:12 +0000
Subject: [PATCH 39/69] fix: an on_coroutine_* clean-up action that is never
 awaited must be destroyed

---
 include/exec/on_coro_disposition.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/exec/on_coro_disposition.hpp b/include/exec/on_coro_disposition.hpp
index edb8b2e..e946197 100644
--- a/include/exec/on_coro_disposition.hpp
+++ b/include/exec/on_coro_disposition.hpp
@@ -82,6 +82,12 @@ namespace experimental::execution
         : __coro_(std::exchange(__that.__coro_, {}))
       {}
 
+      ~__task()
+      {
+        if (__coro_)
+          STDEXEC::__coroutine_destroy_nothrow(__coro_);
+      }
+
       [[nodiscard]]
       auto await_ready() const noexcept -> bool
       {
-- 
2.43.0


From d10562067301d3e45b059221efc0f5f1ebf25828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:32 +0000
Subject: [PATCH 40/69] fix: exec::function must look for a frame allocator in
 the receiver's environment

---
 include/exec/function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/function.hpp b/include/exec/function.hpp
index f0ba12f..872e719 100644
--- a/include/exec/function.hpp
+++ b/include/exec/function.hpp
@@ -141,14 +141,14 @@ namespace experimental::execution
       using __receiver_t   = __receiver_wrapper<__any_receiver_ref<_Sigs, _Queries>>;
       using __prop_t       = __receiver_t::__prop_t;
       using __stop_token_t = stop_token_of_t<env_of_t<__receiver_t>>;
-      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<_Receiver const &>()));
+      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<env_of_t<_Receiver>>()));
 
       __memory_resource_adaptor_t<__adaptee_t> __resource_;
       __prop_t                                 __env_;
       _any::_state<_Receiver, __stop_token_t>  __rcvr_;
 
       explicit __opstate_base(_Receiver __rcvr)
-        : __resource_(__choose_frame_allocator(std::as_const(__rcvr)))
+        : __resource_(__choose_frame_allocator(STDEXEC::get_env(__rcvr)))
         , __env_(__make_env())
         , __rcvr_(static_cast<_Receiver &&>(__rcvr))
       {}
-- 
2.43.0


From a2a1c8bbb91256b62a1f271863e5a253507e4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:33 +0000
Subject: [PATCH 41/69] fix: an over-aligned value must not be stored in a less
 aligned small buffer

---
 include/stdexec/__detail/__any.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 7325c82..b13e776 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -364,10 +364,12 @@ namespace STDEXEC::__any
     }
     else
     {
+      // The buffer of a value proxy is aligned to _Model::__buffer_alignment.
+      STDEXEC_CONSTEXPR_LOCAL bool __fits_alignment = alignof(_Model) <= _Model::__buffer_alignment;
       // If _Model requires movability, then it must be nothrow moveable to be small.
       STDEXEC_CONSTEXPR_LOCAL bool __nothrow_movable = !__extension_of<_Model, __imovable>
                                                     || __nothrow_move_constructible<_Model>;
-      return sizeof(_Model) <= __buffer_size && __nothrow_movable;
+      return sizeof(_Model) <= __buffer_size && __fits_alignment && __nothrow_movable;
     }
   }
 
-- 
2.43.0


From 8c41009dde0ee8feb87ae1efeee6f70930411902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:29 +0000
Subject: [PATCH 42/69] fix: a type-erased value whose construction throws must
 propagate the exception

---
 include/stdexec/__detail/__any.hpp | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index b13e776..b3fb977 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -487,12 +487,13 @@ namespace STDEXEC::__any
   template <class _Value>
   struct __box
   {
-    constexpr explicit __box(_Value __val) noexcept
+    constexpr explicit __box(_Value __val) noexcept(__nothrow_move_constructible<_Value>)
       : __val_(std::move(__val))
     {}
 
     template <class... _Args>
-    constexpr explicit __box(_Args &&...__args) noexcept
+    constexpr explicit __box(_Args &&...__args)
+      noexcept(__nothrow_constructible_from<_Value, _Args...>)
       : __val_(static_cast<_Args &&>(__args)...)
     {}
 
@@ -637,6 +638,26 @@ namespace STDEXEC::__any
     }
   };
 
+  //! Marks the buffer as empty again if the construction of a small object throws.
+  struct __empty_guard
+  {
+    std::byte *__buff;
+    bool       __dismissed = false;
+
+    constexpr void __dismiss() noexcept
+    {
+      __dismissed = true;
+    }
+
+    constexpr ~__empty_guard() noexcept
+    {
+      if (!__dismissed)
+      {
+        *__std::start_lifetime_as<__tagged_ptr>(__buff) = __tagged_ptr();
+      }
+    }
+  };
+
   template <class _Model, class _Allocator, class... _Args>
   constexpr _Model &__emplace_into([[maybe_unused]] _Allocator const    &__alloc,
                                    [[maybe_unused]] __iroot            *&__root_ptr,
@@ -653,8 +674,11 @@ namespace STDEXEC::__any
     {
       if (STDEXEC::__any::__is_small<_Model>(__buff.size()))
       {
-        return *std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
-                                  static_cast<_Args &&>(__args)...);
+        __empty_guard __guard{__buff.data()};
+        auto *const   __model = std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
+                                                static_cast<_Args &&>(__args)...);
+        __guard.__dismiss();
+        return *__model;
       }
       else
       {
-- 
2.43.0


From beb2bb31e5c0681ba7fc00f5fa9a221bb221b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:57 +0000
Subject: [PATCH 43/69] fix: a parallel_scheduler operation that does not reach
 the backend must release what it holds

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 5d0c290..6bd1201 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -171,9 +171,10 @@ namespace STDEXEC
     schedule:
     - __receiver_adapter::__vtable -- 8
     - __receiver_adapter::__rcvr_ (Rcvr) -- assuming 0
+    - __system_op::__sched_impl_ (shared_ptr) -- 16
     - __system_op::__preallocated_ (__preallocated) -- 72
     ---------------------
-    Total: 80; extra 8 bytes compared to backend needs.
+    Total: 96; extra 24 bytes compared to backend needs.
 
     for bulk:
     - __bulk_state_base::__fun_ (_Fn) -- 0 (assuming empty function)
@@ -199,13 +200,8 @@ namespace STDEXEC
       /// Constructs `this` from `__rcvr` and `__sched_impl`.
       __system_op(_Rcvr&& __rcvr, __backend_ptr_t __sched_impl)
         : __rcvr_{std::forward<_Rcvr>(__rcvr)}
-      {
-        /// Before the operation starts, we store the scheduler implementation in
-        /// __preallocated_. After the operation starts, we don't need this pointer
-        /// anymore, and the storage can be used by the backend
-        auto* __p = &__preallocated_.__as<__backend_ptr_t>();
-        std::construct_at(__p, std::move(__sched_impl));
-      }
+        , __sched_impl_{std::move(__sched_impl)}
+      {}
 
       STDEXEC_IMMOVABLE(__system_op);
 
@@ -218,18 +214,18 @@ namespace STDEXEC
           __rcvr_.set_stopped();
           return;
         }
-        auto& __sched_impl = __preallocated_.__as<__backend_ptr_t>();
-        auto  __impl       = std::move(__sched_impl);
-        std::destroy_at(&__sched_impl);
+        // The backend may complete, and thereby destroy, this operation.
+        auto __impl = std::move(__sched_impl_);
         __impl->schedule(__rcvr_, __preallocated_.__as_storage());
       }
 
       /// Object that receives completion from the work described by the sender.
       __receiver_proxy<_Rcvr> __rcvr_;
 
+      /// The backend interface for the scheduler, until the operation starts.
+      __backend_ptr_t __sched_impl_;
+
       /// Preallocated space for storing the operation state on the implementation size.
-      /// We also store here the backend interface for the scheduler before we actually
-      /// start the operation.
       __aligned_storage<STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_SIZE,
                         STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_ALIGN>
         __preallocated_;
@@ -597,12 +593,16 @@ namespace STDEXEC
       /// Preallocated space for storing the inner operation state, and then storage space for the backend call.
       __aligned_storage<_PreallocatedSize, _PreallocatedAlign> __preallocated_;
 
+      /// Whether `__preallocated_` still holds the inner operation state.
+      bool __inner_op_alive_{false};
+
       /// Destroys the inner operation state object, and returns the preallocated storage for it to be used by the backend.
       static auto
       __prepare_storage_for_backend_impl(__bulk_state_base_t* __base) -> std::span<std::byte>
       {
         auto* __self = static_cast<__system_bulk_op*>(__base);
         // We don't need anymore the storage for the previous operation state.
+        __self->__inner_op_alive_ = false;
         __self->__preallocated_.template __as<__inner_op_state>().~__inner_op_state();
         // Reuse the preallocated storage for the backend.
         return __self->__preallocated_.__as_storage();
@@ -624,6 +624,17 @@ namespace STDEXEC
 
         // Start using the preallocated buffer to store the inner operation state.
         new (__preallocated_.__as_ptr()) __inner_op_state(static_cast<_InitF&&>(__initFunc)(*this));
+        __inner_op_alive_ = true;
+      }
+
+      ~__system_bulk_op()
+      {
+        // The inner operation state is still there if the previous sender completed with an error or
+        // stopped, or if this operation was never started.
+        if (__inner_op_alive_)
+        {
+          __preallocated_.template __as<__inner_op_state>().~__inner_op_state();
+        }
       }
 
       __system_bulk_op(__system_bulk_op const &)                    = delete;
-- 
2.43.0


From d137a84ae1f8d527557caa47cc0a8808999fcfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 44/69] fix: an exception in a bulk function on the
 parallel_scheduler must complete with an error, not terminate

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 65 ++++++++++++++++---
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 6bd1201..771a85a 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -26,6 +26,7 @@ import stdexec;
 
 #  include "__execution_fwd.hpp"
 
+#  include "__atomic.hpp"
 #  include "__bulk.hpp"
 #  include "__domain.hpp"
 #  include "__manual_lifetime.hpp"
@@ -347,6 +348,10 @@ namespace STDEXEC
 
       /// Storage for the arguments received from the previous sender.
       __manual_lifetime<__storage_t> __arguments_;
+
+      /// The first exception thrown by the bulk functor, if any.
+      __std::atomic<bool> __failed_{false};
+      std::exception_ptr  __error_{};
     };
 
     /// Derived class that properly forwards the arguments received from `_Previous` to the receiver methods.
@@ -367,12 +372,26 @@ namespace STDEXEC
       void set_value() noexcept override
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
-        auto __args  = std::move(__base_t::__arguments_.__get());
-        __base_t::__arguments_.__destroy();
-        std::destroy_at(this);
-        std::apply([&](auto&&... __args)
-                   { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
-                   std::move(__args));
+        // The backend calls this after all calls to execute() have returned.
+        if (__base_t::__error_ != nullptr)
+        {
+          set_error(std::move(__base_t::__error_));
+          return;
+        }
+        STDEXEC_TRY
+        {
+          auto __args = std::move(__base_t::__arguments_.__get());
+          __base_t::__arguments_.__destroy();
+          std::destroy_at(this);
+          std::apply([&](auto&&... __args)
+                     { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
+                     std::move(__args));
+        }
+        STDEXEC_CATCH_ALL
+        {
+          // Only moving the arguments can throw.
+          set_error(std::current_exception());
+        }
       }
 
       /// Calls `set_error()` on the final receiver of the bulk operation, passing `__ex`.
@@ -393,8 +412,25 @@ namespace STDEXEC
         STDEXEC::set_stopped(std::move(__state->__rcvr_));
       }
 
-      /// Calls the bulk functor passing `__index` and the values from the previous sender.
+      /// Calls the bulk functor passing `__index` and the values from the previous sender. Remembers the
+      /// first exception thrown, so that `set_value` can pass it on.
       void execute(size_t __begin, size_t __end) noexcept override
+      {
+        STDEXEC_TRY
+        {
+          __execute(__begin, __end);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          if (!__base_t::__failed_.exchange(true))
+          {
+            __base_t::__error_ = std::current_exception();
+          }
+        }
+      }
+
+     private:
+      void __execute(size_t __begin, size_t __end)
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
         if constexpr (_BulkState::__is_unchunked)
@@ -509,15 +545,24 @@ namespace STDEXEC
         auto st = get_stop_token(STDEXEC::get_env(__state_.__rcvr_));
         if (st.stop_requested())
         {
-          STDEXEC::set_stopped(__state_.__rcvr_);
+          STDEXEC::set_stopped(std::move(__state_.__rcvr_));
           return;
         }
 
         // Store the input data in the shared state.
         using __typed_forward_args_receiver_t =
           __typed_forward_args_receiver<_Previous, _BulkState, _As...>;
-        auto __r = new (&__state_.__forward_args_helper_)
-          __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        __typed_forward_args_receiver_t* __r = nullptr;
+        STDEXEC_TRY
+        {
+          __r = new (&__state_.__forward_args_helper_)
+            __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          STDEXEC::set_error(std::move(__state_.__rcvr_), std::current_exception());
+          return;
+        }
 
         auto __scheduler = __sched_;
         auto __size      = static_cast<size_t>(__state_.__size_);
-- 
2.43.0


From 39da01e6ec8162566d06ce1bb76c65de805ff658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 45/69] fix: bulk_chunked of shape 0 with a sequential policy
 must not call the function on the parallel_scheduler

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 771a85a..77532b7 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -566,6 +566,8 @@ namespace STDEXEC
 
         auto __scheduler = __sched_;
         auto __size      = static_cast<size_t>(__state_.__size_);
+        // Without parallelism, one call to execute() runs all the iterations, if there are any.
+        auto __count = _BulkState::__parallelize ? __size : size_t(__size != 0);
 
         auto __storage = __state_.__prepare_storage_for_backend(&__state_);
         // This might destroy the `this` object.
@@ -574,13 +576,13 @@ namespace STDEXEC
         // This will invoke `execute` on our receiver multiple times, and then a completion signal (e.g., `set_value`).
         if constexpr (_BulkState::__is_unchunked)
         {
-          __scheduler->schedule_bulk_unchunked(_BulkState::__parallelize ? __size : 1,
+          __scheduler->schedule_bulk_unchunked(__count,
                                                *__r,
                                                __storage);
         }
         else
         {
-          __scheduler->schedule_bulk_chunked(_BulkState::__parallelize ? __size : 1,
+          __scheduler->schedule_bulk_chunked(__count,
                                              *__r,
                                              __storage);
         }
-- 
2.43.0


From eee7fe707659e098ea185877c04851d52bf076d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:13 +0000
Subject: [PATCH 46/69] fix: threads that race to create the
 parallel_scheduler's backend must end up with the same one

---
 .../__detail/__parallel_scheduler_default_impl.hpp    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
index 86ce869..9ff1915 100644
--- a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
@@ -350,11 +350,16 @@ namespace STDEXEC::__parallel_scheduler_default_impl
       // Note: we are lazy-loading the instance to avoid creating it if it is not needed.
       auto __new_instance = __factory_.load(__std::memory_order_relaxed)();
 
-      // Store the newly created instance.
+      // Store the newly created instance, unless another thread has stored one in the meantime. All
+      // callers must end up with the same instance.
       __acquire_instance_lock();
-      __instance_ = __new_instance;
+      if (!__instance_)
+      {
+        __instance_ = __new_instance;
+      }
+      auto __current_instance = __instance_;
       __release_instance_lock();
-      return __new_instance;
+      return __current_instance;
     }
 
     /// Set `__new_factory` as the new factory for `_Interface` and return the old one.
-- 
2.43.0


From 913b4b0453b71d89ecb3986e0a5aab6b1cf538c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 47/69] fix: a throwing bulk function on a task_scheduler must
 complete once, after all calls have returned

---
 include/stdexec/__detail/__task_scheduler.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 476a259..3eae7cf 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -27,6 +27,7 @@ import stdexec;
 
 // include these after __execution_fwd.hpp
 #  include "__any.hpp"
+#  include "__atomic.hpp"
 #  include "__bulk.hpp"
 #  include "__concepts.hpp"
 #  include "__diagnostics.hpp"
@@ -511,6 +512,13 @@ namespace STDEXEC
 
       constexpr void set_value() noexcept final
       {
+        // The backend calls this after all calls to execute() have returned.
+        if (__error_ != nullptr)
+        {
+          auto __error = std::move(__error_);
+          STDEXEC::set_error(std::move(this->__rcvr_), std::move(__error));
+          return;
+        }
         // Send the stored values to the downstream receiver.
         __visit([](auto& __rcvr, auto& __tupl)
                 { __apply(STDEXEC::set_value, std::move(__tupl), std::move(__rcvr)); },
@@ -518,7 +526,8 @@ namespace STDEXEC
                 this->__rcvr_);
       }
 
-      //! Actually runs the bulk operation over the specified range.
+      //! Actually runs the bulk operation over the specified range. The first exception is remembered
+      //! and passed on when all of the work is done.
       constexpr void execute(size_t __begin, size_t __end) noexcept final
       {
         STDEXEC_TRY
@@ -536,7 +545,10 @@ namespace STDEXEC
         }
         STDEXEC_CATCH_ALL
         {
-          STDEXEC::set_error(std::move(this->__rcvr_), std::current_exception());
+          if (!__failed_.exchange(true))
+          {
+            __error_ = std::current_exception();
+          }
         }
       }
 
@@ -546,6 +558,8 @@ namespace STDEXEC
 
       _Fn                          __fn_;
       size_t                       __shape_;
+      __std::atomic<bool>          __failed_{false};
+      std::exception_ptr           __error_{};
       _Values                      __values_{__no_init};
       __any_task_scheduler_backend __backend_;
       alignas(STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_ALIGN) std::byte
-- 
2.43.0


From 3ce7ec2cb9497ddb290bbb4534e4431f81d186b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 48/69] fix: a task_scheduler's backend that fails to start
 bulk work must complete it with an error

---
 include/stdexec/__detail/__parallel_scheduler_backend.hpp | 7 +++++--
 include/stdexec/__detail/__task_scheduler.hpp             | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_backend.hpp b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
index c18c4cc..9290f4a 100644
--- a/include/stdexec/__detail/__parallel_scheduler_backend.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
@@ -204,7 +204,10 @@ namespace STDEXEC
 
     // Partially implements the _RcvrProxy interface (either receiver_proxy or
     // bulk_item_receiver_proxy) in terms of a concrete receiver type _Rcvr.
-    template <class _Rcvr, class _RcvrProxy, bool _Infallible = false>
+    template <class _Rcvr,
+              class _RcvrProxy,
+              bool _Infallible  = false,
+              bool _Unstoppable = _Infallible>
     struct STDEXEC_ATTRIBUTE(empty_bases) __receiver_proxy_base
       : _RcvrProxy
       , __stop_callback_for<stop_token_of_t<env_of_t<_Rcvr>>>
@@ -249,7 +252,7 @@ namespace STDEXEC
 
       constexpr void set_stopped() noexcept final
       {
-        if constexpr (_Infallible && unstoppable_token<__stop_token_t>)
+        if constexpr (_Unstoppable && unstoppable_token<__stop_token_t>)
         {
           STDEXEC_ASSERT(!+"set_stopped called on an unstoppable receiver proxy");
           __std::unreachable();
diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 3eae7cf..bcbc8c8 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -498,7 +498,7 @@ namespace STDEXEC
     //! downstream receiver.
     template <class _BulkTag, class _Policy, class _Fn, class _Rcvr, class _Values>
     struct __bulk_state final
-      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, true>
+      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, false, true>
     {
       constexpr explicit __bulk_state(_Rcvr                        __rcvr,
                                       size_t                       __shape,
@@ -852,9 +852,9 @@ namespace STDEXEC
   {
     // Implementation of the get_start_scheduler_t query for __receiver_proxy_base and
     // __proxy_env from __parallel_scheduler_backend.hpp.
-    template <class _Rcvr, class _Proxy, bool _Infallible>
+    template <class _Rcvr, class _Proxy, bool _Infallible, bool _Unstoppable>
     constexpr void
-    __receiver_proxy_base<_Rcvr, _Proxy, _Infallible>::__query(get_start_scheduler_t,
+    __receiver_proxy_base<_Rcvr, _Proxy, _Infallible, _Unstoppable>::__query(get_start_scheduler_t,
                                                                __type_index __value_type,
                                                                void*        __dest) const noexcept
     {
-- 
2.43.0


From 25fa4515357b956738f8b3f15a6ee139a50a9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 49/69] fix: bulk work with a sequential policy on a
 task_scheduler must run every iteration once

---
 include/stdexec/__detail/__task_scheduler.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index bcbc8c8..23b823a 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -381,16 +381,19 @@ namespace STDEXEC
           using __values_t = __decayed_tuple<_As...>;
           __state_->__values_.template emplace<__values_t>(static_cast<_As&&>(__as)...);
 
-          // Start the bulk operation.
+          // Start the bulk operation. Without parallelism, one call to execute() runs all the iterations,
+          // if there are any.
+          size_t const __shape = __state_->__shape_;
+          size_t const __count = __state_->__parallelize ? __shape : size_t(__shape != 0);
           if constexpr (__same_as<_BulkTag, bulk_chunked_t>)
           {
-            __state_->__backend_.schedule_bulk_chunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_chunked(__count,
                                                        *__state_,
                                                        std::span{__state_->__storage_});
           }
           else
           {
-            __state_->__backend_.schedule_bulk_unchunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_unchunked(__count,
                                                          *__state_,
                                                          std::span{__state_->__storage_});
           }
@@ -532,10 +535,6 @@ namespace STDEXEC
       {
         STDEXEC_TRY
         {
-          using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
-          constexpr bool __parallelize =
-            __same_as<__policy_t, STDEXEC::parallel_policy>
-            || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
           __visit(__task::__get_execute_bulk_fn<__parallelize>(_BulkTag(),
                                                                __fn_,
                                                                __shape_,
@@ -556,6 +555,11 @@ namespace STDEXEC
       template <class, class, class, class, class>
       friend struct __bulk_receiver;
 
+      using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
+      static constexpr bool __parallelize =
+        __same_as<__policy_t, STDEXEC::parallel_policy>
+        || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
+
       _Fn                          __fn_;
       size_t                       __shape_;
       __std::atomic<bool>          __failed_{false};
-- 
2.43.0


From dda425553d0e2b4cb03bd6e4c27e868359f3309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:50 +0000
Subject: [PATCH 50/69] fix: bulk on a task_scheduler over inline_scheduler
 must not recurse without end

---
 include/stdexec/__detail/__task_scheduler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 23b823a..f95b5af 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -148,8 +148,14 @@ namespace STDEXEC
      private:
       struct __env
       {
+        // A scheduler that completes wherever it is started, like inline_scheduler, may report the
+        // task_scheduler it is wrapped in. Dispatching to that one again would never end.
         template <class... _Env>
           requires __callable<get_completion_scheduler_t<set_value_t>, _Sch const &, _Env...>
+                && __not_same_as<__call_result_t<get_completion_scheduler_t<set_value_t>,
+                                                 _Sch const &,
+                                                 _Env...>,
+                                 task_scheduler>
         [[nodiscard]]
         constexpr auto
         query(get_completion_scheduler_t<set_value_t>, _Env const &... __env) const noexcept
-- 
2.43.0


From dd203383f4ace43fb09b581edeb6155a1cf05118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 51/69] fix: a task_scheduler must not construct an
 over-aligned operation in less aligned storage

---
 include/stdexec/__detail/__task_scheduler.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index f95b5af..284e8d3 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -46,6 +46,7 @@ import stdexec;
 
 #  if !STDEXEC_USE_MODULES()
 #    include <cstddef>
+#    include <cstdint>
 
 #    include <exception>
 #    include <span>
@@ -680,6 +681,14 @@ namespace STDEXEC
 
     //////////////////////////////////////////////////////////////////////////////////////
     // __emplace_into
+    // Whether an object of type _Ty can be constructed at the beginning of the storage
+    template <class _Ty>
+    constexpr bool __fits_into(std::span<std::byte> __storage) noexcept
+    {
+      return __storage.size() >= sizeof(_Ty)
+          && reinterpret_cast<std::uintptr_t>(__storage.data()) % alignof(_Ty) == 0;
+    }
+
     template <class _Ty, class _Alloc, class... _Args>
     constexpr auto
     __emplace_into(std::span<std::byte> __storage, _Alloc const & __alloc, _Args&&... __args)
@@ -688,7 +697,7 @@ namespace STDEXEC
       auto __alloc_copy = STDEXEC::__rebind_allocator<_Ty>(__alloc);
       using __traits_t  = std::allocator_traits<decltype(__alloc_copy)>;
 
-      bool const    __in_situ = __storage.size() >= sizeof(_Ty);
+      bool const    __in_situ = __task::__fits_into<_Ty>(__storage);
       auto*         __ptr     = __in_situ ? reinterpret_cast<_Ty*>(__storage.data())
                                           : __traits_t::allocate(__alloc_copy, 1);
       __scope_guard __guard{
@@ -772,7 +781,7 @@ namespace STDEXEC
       STDEXEC_TRY
       {
         using __opstate_t        = __task::__opstate<_Alloc, _Sndr, _Env>;
-        bool const     __in_situ = __storage.size() >= sizeof(__opstate_t);
+        bool const     __in_situ = __task::__fits_into<__opstate_t>(__storage);
         _Alloc const & __alloc   = *this;
         auto&          __opstate = __task::__emplace_into<__opstate_t>(__storage,
                                                               __alloc,
-- 
2.43.0


From 9d012fc227f19a529b2506fcb1152c6aa3db595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:57 +0000
Subject: [PATCH 52/69] fix: bulk on the parallel_scheduler must not terminate
 when transforming or connecting throws

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 77532b7..b05cd08 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -110,7 +110,7 @@ namespace STDEXEC
   {
     template <__bulk_chunked_or_unchunked _Sender, class _Env>
     constexpr auto
-    transform_sender(set_value_t, _Sender&& __sndr, _Env const & __env) const noexcept;
+    transform_sender(set_value_t, _Sender&& __sndr, _Env const & __env) const;
   };
 
   namespace __detail
@@ -734,7 +734,7 @@ namespace STDEXEC
       _Previous                 __previous;
       __detail::__backend_ptr_t __sched;
 
-      auto operator()(_Op& __op) && noexcept
+      auto operator()(_Op& __op) &&
       {
         using __receiver_t = _Op::__intermediate_receiver_t;
         return STDEXEC::connect(std::move(__previous), __receiver_t{__op, std::move(__sched)});
@@ -743,7 +743,7 @@ namespace STDEXEC
 
     /// Connects `__self` to `__rcvr`, returning the operation state containing the work to be done.
     template <receiver _Rcvr>
-    auto connect(_Rcvr __rcvr) && noexcept(__nothrow_move_constructible<_Rcvr>)
+    auto connect(_Rcvr __rcvr) &&
       -> __detail::__system_bulk_op<_IsUnchunked, _Previous, _Size, _Fn, _Rcvr, _Parallelize>
     {
       using __res_t =
@@ -807,7 +807,7 @@ namespace STDEXEC
   struct __transform_parallel_bulk_sender
   {
     template <class _Data, class _Previous>
-    auto operator()(bulk_chunked_t, _Data&& __data, _Previous&& __previous) const noexcept
+    auto operator()(bulk_chunked_t, _Data&& __data, _Previous&& __previous) const
     {
       auto [__pol, __shape, __fn]  = static_cast<_Data&&>(__data);
       using __policy_t             = std::remove_cvref_t<decltype(__pol.__get())>;
@@ -824,7 +824,7 @@ namespace STDEXEC
     }
 
     template <class _Data, class _Previous>
-    auto operator()(bulk_unchunked_t, _Data&& __data, _Previous&& __previous) const noexcept
+    auto operator()(bulk_unchunked_t, _Data&& __data, _Previous&& __previous) const
     {
       auto [__pol, __shape, __fn]  = static_cast<_Data&&>(__data);
       using __policy_t             = std::remove_cvref_t<decltype(__pol.__get())>;
@@ -846,7 +846,7 @@ namespace STDEXEC
   template <__bulk_chunked_or_unchunked _Sender, class _Env>
   constexpr auto __parallel_scheduler_domain::transform_sender(set_value_t,
                                                                _Sender&&    __sndr,
-                                                               _Env const & __env) const noexcept
+                                                               _Env const & __env) const
   {
     if constexpr (__completes_on<_Sender, parallel_scheduler, _Env>)
     {
-- 
2.43.0


From 953bed97fbb1c39da79c0ddb97b205e1ff447066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 53/69] fix: copying out of a type-erased reference moved from
 the original or aborted

---
 include/stdexec/__detail/__any.hpp | 34 ++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index b3fb977..1c8a422 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -862,6 +862,29 @@ namespace STDEXEC::__any
       }
     }
 
+    //! Copies the value, leaving the original alone. Used when converting from a
+    //! type-erased reference.
+    //! @pre !empty(*this)
+    constexpr virtual void __slice_to_(__value_proxy_root<_Interface> &__result) const
+    {
+      STDEXEC_ASSERT(!__empty(*this));
+
+      if constexpr (_Base::__box_kind == __box_kind::__abstract
+                    || !__extension_of<_Base, __icopyable>)
+      {
+        STDEXEC_ASSERT(!"should never be here: __slice_to_ called on a type that cannot be copied");
+        __std::unreachable();
+      }
+      else if constexpr (_Base::__box_kind == __box_kind::__proxy)
+      {
+        __value(*this).__slice_to_(__result);
+      }
+      else
+      {
+        __result.emplace(__value(*this));  // could throw
+      }
+    }
+
     //! @pre !empty(*this)
     constexpr virtual void __indirect_bind_(__reference_proxy_root<_Interface> &__result) noexcept
     {
@@ -1922,9 +1945,8 @@ namespace STDEXEC::__any
             && (_Other::__root_kind == __root_kind::__reference)
     constexpr __any(_Interface<_Other> const &__other)
     {
-      _Interface<_Other> __tmp;
-      __tmp.__copy_from(__other);
-      (*this).__assign_from(std::move(__tmp));
+      if (!__empty(__other))
+        __other.__slice_to_(*this);
     }
 
     template <__model_of<_Interface> _Value>
@@ -1955,11 +1977,9 @@ namespace STDEXEC::__any
       if (__data(__other) == __data(*this))
         return *this;
 
-      _Interface<_Other> __tmp;
-      __tmp.__copy_from(__other);
-
       __reset(*this);
-      (*this).__assign_from(std::move(__tmp));
+      if (!__empty(__other))
+        __other.__slice_to_(*this);
       return *this;
     }
 
-- 
2.43.0


From f01de487bc2293a6882af05e1b212e03c1ff96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 54/69] fix: any_cast of a wrapper converted from a derived
 interface used the wrong model type

---
 include/stdexec/__detail/__any.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 1c8a422..5d65f5c 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -1733,6 +1733,14 @@ namespace STDEXEC::__any
       using __value_model     = __copy_cvref_t<_CvProxy, __value_root<_Interface, _Value>>;
       using __reference_model = __copy_cvref_t<_CvProxy, __reference_root<_Interface, _Value>>;
 
+      STDEXEC_IF_NOT_CONSTEVAL
+      {
+        // After a conversion from a wrapper of a derived interface, the model need not be
+        // rooted in _Interface, so ask it where its value is.
+        STDEXEC_ASSERT(__type(*__proxy_ptr) == __mtypeid<_Value>);
+        return static_cast<__copy_cvref_t<_CvProxy, _Value> *>(__data(*__proxy_ptr));
+      }
+
       // get the address of the model from the proxy:
       auto *__model_ptr = std::addressof(__value(*__proxy_ptr));
 
-- 
2.43.0


From 9ef8c790a8e801670a1064fa8f37cf920008dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 55/69] fix: io_uring_context: run() that failed completed a
 second time with set_stopped or set_value

---
 include/exec/linux/io_uring_context.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 011cf1f..1f750d9 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -669,6 +669,7 @@ namespace experimental::execution
           {
             __callback.reset();
             STDEXEC::set_error(static_cast<_Rcvr&&>(__rcvr_), std::current_exception());
+            return;
           }
           __callback.reset();
           if (__context_.stop_requested())
-- 
2.43.0


From b08e1c3ad6adb22d8dc418bd60d3f8249069b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 56/69] fix: io_uring_context: a timed operation started on a
 stopped context never completed

---
 include/exec/linux/io_uring_context.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 1f750d9..28ec297 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -1032,8 +1032,8 @@ namespace experimental::execution
       void submit(::io_uring_sqe& __sqe) noexcept
       {
         [[maybe_unused]]
-        int prev = __n_ops_.fetch_add(1, STDEXEC::__std::memory_order_relaxed);
-        STDEXEC_ASSERT(prev == 0);
+        int prev = __n_ops_.load(STDEXEC::__std::memory_order_relaxed);
+        STDEXEC_ASSERT(prev == 1);
         __context&    __context_ = this->__base_.context();
         __receiver_t& __receiver = this->__base_.receiver();
         __on_context_stop_.emplace(__context_.get_stop_token(), __stop_callback{this});
@@ -1063,7 +1063,7 @@ namespace experimental::execution
       }
 
       __stop_operation<__stoppable_task_facade> __stop_operation_;
-      STDEXEC::__std::atomic<int>               __n_ops_{0};
+      STDEXEC::__std::atomic<int>               __n_ops_{1};
       __on_context_stop_t                       __on_context_stop_{};
       __on_receiver_stop_t                      __on_receiver_stop_{};
     };
-- 
2.43.0


From a6e2d41e546bddc23a78592ffb40d8bf5769d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 57/69] fix: io_uring_context: running again after
 run_until_empty() or finish() submitted the wakeup operation twice and never
 returned

---
 include/exec/linux/io_uring_context.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 28ec297..2465239 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -558,8 +558,11 @@ namespace experimental::execution
           }
           else
           {
-            // This can only happen for the very first pass of run_until_stopped()
-            __wakeup_operation_.start();
+            // The wakeup operation of an earlier run that was not stopped is still pending.
+            if (__n_total_submitted_ == 0)
+            {
+              __wakeup_operation_.start();
+            }
           }
         }
         scope_guard __not_running{
-- 
2.43.0


From c7189089af10ed7b26a2512c496443b879b749e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 58/69] fix: io_uring_context: a timed operation submitted as
 the context stopped was never completed

---
 include/exec/linux/io_uring_context.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 2465239..817aefb 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -617,13 +617,11 @@ namespace experimental::execution
           // There could have been requests in flight. Complete all of them
           // and then stop it, finally.
           __pending_.append(__requests_.pop_all_reversed());
-          __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
-                                                                      __pending_),
-                                                                    __params_.cq_entries,
-                                                                    true);
-          STDEXEC_ASSERT(__result.__n_submitted == 0);
-          STDEXEC_ASSERT(__result.__pending.empty());
-          __completion_queue_.complete(static_cast<__task_queue&&>(__result.__ready));
+          // Nothing is left in the kernel, so that there is nothing to cancel there, either.
+          while (!__pending_.empty())
+          {
+            __stop(__pending_.pop_front());
+          }
         }
       }
 
-- 
2.43.0


From 0addd59fef22ae26e65d45f6c40bc83fe9d02172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 59/69] fix: io_uring_context: a stop request racing with the
 end of run_until_empty() closed the context with its wakeup operation still
 pending

---
 include/exec/linux/io_uring_context.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 817aefb..3964297 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -571,9 +571,11 @@ namespace experimental::execution
         while (__n_total_submitted_ > 0 || !__pending_.empty())
         {
           run_some();
+          // Once stop is requested, wait for the wakeup operation, too.
           if (__n_total_submitted_ == 0
               || (__n_total_submitted_ == 1
-                  && __break_loop_.load(STDEXEC::__std::memory_order_acquire)))
+                  && __break_loop_.load(STDEXEC::__std::memory_order_acquire)
+                  && !__stop_source_->stop_requested()))
           {
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
@@ -596,9 +598,8 @@ namespace experimental::execution
           __pending_.append(__requests_.pop_all_reversed());
         }
         STDEXEC_ASSERT(__n_total_submitted_ <= 1);
-        if (__stop_source_->stop_requested() && __pending_.empty())
+        if (__n_total_submitted_ == 0 && __stop_source_->stop_requested() && __pending_.empty())
         {
-          STDEXEC_ASSERT(__n_total_submitted_ == 0);
           // try to shutdown the request queue
           int __n_in_flight_expected = 0;
           while (
-- 
2.43.0


From c2f3e4544d3475f2f7991b54e2bbb2946095e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 60/69] fix: io_uring_context: run_until_empty() refused
 because the context is running made the active run return

---
 include/exec/linux/io_uring_context.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 3964297..177e507 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -535,6 +535,11 @@ namespace experimental::execution
       }
 
       void run_until_stopped()
+      {
+        __run_until(until::stopped);
+      }
+
+      void __run_until(until __mode)
       {
         bool expected_running = false;
         // Only one thread of execution is allowed to drive the io context.
@@ -565,6 +570,10 @@ namespace experimental::execution
             }
           }
         }
+        if (__mode == until::empty)
+        {
+          __break_loop_.store(true, STDEXEC::__std::memory_order_relaxed);
+        }
         scope_guard __not_running{
           [&]() noexcept { __is_running_.store(false, STDEXEC::__std::memory_order_relaxed); }};
         __pending_.append(__requests_.pop_all_reversed());
@@ -718,8 +727,7 @@ namespace experimental::execution
 
       void run_until_empty()
       {
-        __break_loop_.store(true, STDEXEC::__std::memory_order_relaxed);
-        run_until_stopped();
+        __run_until(until::empty);
       }
 
       auto get_scheduler() noexcept -> __scheduler;
-- 
2.43.0


From 0c95e0548179b9a9f081d63303166b4e12baf458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:41 +0000
Subject: [PATCH 61/69] fix: io_uring_context: request_stop() with several
 timers pending woke the context only once and left the others waiting for
 their deadline

---
 include/exec/linux/io_uring_context.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 177e507..f676a31 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -512,7 +512,7 @@ namespace experimental::execution
         __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
                                                                     __pending_),
                                                                   __max_submissions,
-                                                                  __stop_source_->stop_requested());
+                                                                  __draining_);
         __n_total_submitted_ += __result.__n_submitted;
         __n_newly_submitted_ += __result.__n_submitted;
         STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -526,7 +526,7 @@ namespace experimental::execution
           __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
           __result          = __submission_queue_.submit(static_cast<__task_queue&&>(__pending_),
                                                 __max_submissions,
-                                                __stop_source_->stop_requested());
+                                                __draining_);
           __n_total_submitted_ += __result.__n_submitted;
           __n_newly_submitted_ += __result.__n_submitted;
           STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -552,6 +552,7 @@ namespace experimental::execution
         }
         else
         {
+          __draining_ = false;
           // Check whether we restart the context after a context-wide stop.
           // We have to reset the stop source in this case.
           int __in_flight = __n_submissions_in_flight_.load(STDEXEC::__std::memory_order_relaxed);
@@ -580,7 +581,13 @@ namespace experimental::execution
         while (__n_total_submitted_ > 0 || !__pending_.empty())
         {
           run_some();
-          // Once stop is requested, wait for the wakeup operation, too.
+          // Once stop is requested and nothing else is left, wait for the wakeup operation, too.
+          if (__n_total_submitted_ == 1 && __pending_.empty() && !__draining_
+              && __stop_source_->stop_requested())
+          {
+            __draining_ = true;
+            wakeup();
+          }
           if (__n_total_submitted_ == 0
               || (__n_total_submitted_ == 1
                   && __break_loop_.load(STDEXEC::__std::memory_order_acquire)
@@ -742,6 +749,7 @@ namespace experimental::execution
       STDEXEC::__std::atomic<bool>                __is_running_{false};
       STDEXEC::__std::atomic<int>                 __n_submissions_in_flight_{0};
       STDEXEC::__std::atomic<bool>                __break_loop_{false};
+      bool                                        __draining_{false};
       std::ptrdiff_t                              __n_total_submitted_{0};
       std::ptrdiff_t                              __n_newly_submitted_{0};
       std::optional<STDEXEC::inplace_stop_source> __stop_source_{std::in_place};
@@ -754,7 +762,8 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__context_->__stop_source_->stop_requested())
+      // While operations are left, others (or their stop callbacks) can submit their cancellation.
+      if (!__context_->__draining_)
       {
         __context_->__pending_.push_front(this);
       }
-- 
2.43.0


From ed6aeb9b966f7685f9b6320059a330a3cfebd92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:42 +0000
Subject: [PATCH 62/69] fix: io_uring_context: a stop request racing with an
 operation's completion submitted its cancellation twice or after
 run_until_empty() had returned

---
 include/exec/linux/io_uring_context.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index f676a31..7ecdf42 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -937,10 +937,8 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const &) noexcept
       {
-        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel) == 1)
         {
-          __op_->__on_context_stop_.reset();
-          __op_->__on_receiver_stop_.reset();
           STDEXEC::set_stopped((static_cast<_Base&&>(*__op_)).receiver());
         }
       }
@@ -950,7 +948,7 @@ namespace experimental::execution
         int expected = 1;
         if (__op_->__n_ops_.compare_exchange_strong(expected,
                                                     2,
-                                                    STDEXEC::__std::memory_order_relaxed))
+                                                    STDEXEC::__std::memory_order_acquire))
         {
           if (__op_->context().submit(this))
           {
@@ -1063,10 +1061,12 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const & __cqe) noexcept
       {
+        // No stop callback can start or continue from here on: the stop operation is either
+        // submitted or never will be.
+        __on_context_stop_.reset();
+        __on_receiver_stop_.reset();
         if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
         {
-          __on_context_stop_.reset();
-          __on_receiver_stop_.reset();
           __receiver_t& __receiver = this->__base_.receiver();
           __context&    __context_ = this->__base_.context();
           auto          token      = STDEXEC::get_stop_token(STDEXEC::get_env(__receiver));
-- 
2.43.0


From 5b4d2d2e8d056fda11f22cd55b721b2cfe8c2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:42 +0000
Subject: [PATCH 63/69] fix: io_uring_context: operations that did not fit into
 the submission queue waited for another operation to complete

---
 include/exec/linux/io_uring_context.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 7ecdf42..671205c 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -589,14 +589,15 @@ namespace experimental::execution
             wakeup();
           }
           if (__n_total_submitted_ == 0
-              || (__n_total_submitted_ == 1
+              || (__n_total_submitted_ == 1 && __pending_.empty()
                   && __break_loop_.load(STDEXEC::__std::memory_order_acquire)
                   && !__stop_source_->stop_requested()))
           {
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
           }
-          constexpr int __min_complete = 1;
+          // Do not wait when there are operations left that did not fit into the submission queue.
+          unsigned const __min_complete = __pending_.empty() ? 1 : 0;
           STDEXEC_ASSERT(0 <= __n_total_submitted_
                          && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
           int rc = __io_uring_enter(__ring_fd_,
-- 
2.43.0


From 82eb6682726ad9ed84e423415092892d7ff2859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:42 +0000
Subject: [PATCH 64/69] fix: io_uring_context: with as many operations pending
 as the completion queue has entries, stop requests waited for one of them to
 complete

---
 include/exec/linux/io_uring_context.hpp | 37 +++++++++++++++++++------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 671205c..aae658e 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -502,12 +502,30 @@ namespace experimental::execution
       /// @brief Submit any pending tasks and complete any ready tasks.
       ///
       /// This function is not thread-safe and must only be called from the thread that drives the io context.
+      // Without IORING_FEAT_NODROP, there must be room in the completion queue for everything that is
+      // submitted. With it, the kernel keeps what does not fit, and operations (and their
+      // cancellation) need not wait for others to complete.
+      [[nodiscard]]
+      auto __max_new_submissions() const noexcept -> __u32
+      {
+        return (__params_.features & IORING_FEAT_NODROP)
+               ? __params_.sq_entries
+               : __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
+      }
+
+      [[nodiscard]]
+      auto __completions_fit() const noexcept -> bool
+      {
+        return (__params_.features & IORING_FEAT_NODROP)
+            || std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries);
+      }
+
       void run_some() noexcept
       {
         __n_total_submitted_ -= __completion_queue_.complete();
         STDEXEC_ASSERT(0 <= __n_total_submitted_
-                       && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
-        __u32 __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
+                       && __completions_fit());
+        __u32 __max_submissions = __max_new_submissions();
         __pending_.append(__requests_.pop_all_reversed());
         __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
                                                                     __pending_),
@@ -515,7 +533,7 @@ namespace experimental::execution
                                                                   __draining_);
         __n_total_submitted_ += __result.__n_submitted;
         __n_newly_submitted_ += __result.__n_submitted;
-        STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
+        STDEXEC_ASSERT(__completions_fit());
         __pending_ = static_cast<__task_queue&&>(__result.__pending);
         while (!__result.__ready.empty())
         {
@@ -523,13 +541,13 @@ namespace experimental::execution
             static_cast<__task_queue&&>(__result.__ready));
           STDEXEC_ASSERT(0 <= __n_total_submitted_);
           __pending_.append(__requests_.pop_all_reversed());
-          __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
+          __max_submissions = __max_new_submissions();
           __result          = __submission_queue_.submit(static_cast<__task_queue&&>(__pending_),
                                                 __max_submissions,
                                                 __draining_);
           __n_total_submitted_ += __result.__n_submitted;
           __n_newly_submitted_ += __result.__n_submitted;
-          STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
+          STDEXEC_ASSERT(__completions_fit());
           __pending_ = static_cast<__task_queue&&>(__result.__pending);
         }
       }
@@ -597,15 +615,16 @@ namespace experimental::execution
             break;
           }
           // Do not wait when there are operations left that did not fit into the submission queue.
-          unsigned const __min_complete = __pending_.empty() ? 1 : 0;
+          unsigned const __min_complete = __pending_.empty() || __max_new_submissions() == 0 ? 1 : 0;
           STDEXEC_ASSERT(0 <= __n_total_submitted_
-                         && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
+                         && __completions_fit());
           int rc = __io_uring_enter(__ring_fd_,
                                     static_cast<unsigned>(__n_newly_submitted_),
                                     __min_complete,
                                     IORING_ENTER_GETEVENTS);
-          __throw_error_code_if(rc < 0 && rc != -EINTR, -rc);
-          if (rc != -EINTR)
+          // EBUSY: completions that did not fit into the completion queue have to be reaped first.
+          __throw_error_code_if(rc < 0 && rc != -EINTR && rc != -EBUSY, -rc);
+          if (rc >= 0)
           {
             STDEXEC_ASSERT(rc <= __n_newly_submitted_);
             __n_newly_submitted_ -= rc;
-- 
2.43.0


From 0cb05a4d68f6ead66035280c5f41cf2749be9e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:51 +0000
Subject: [PATCH 65/69] fix: affine answered forwarding attribute queries with
 a default-constructed value instead of its child's answer

---
 include/stdexec/__detail/__affine.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 2306561..5dd67db 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -26,6 +26,7 @@ import stdexec;
 #  include "__basic_sender.hpp"
 #  include "__completion_behavior.hpp"
 #  include "__finally.hpp"
+#  include "__query.hpp"
 #  include "__schedulers.hpp"
 #  include "__senders.hpp"
 #  include "__unstoppable.hpp"
@@ -163,10 +164,11 @@ namespace STDEXEC
       template <__forwarding_query _Tag, class... _Args>
         requires(!__completion_query<_Tag>)
              && __queryable_with<env_of_t<_Sender>, _Tag, _Args const &...>
-      constexpr auto query(_Tag, _Args const &...) const noexcept
-        -> __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>
+      constexpr auto query(_Tag, _Args const &...__args) const
+        noexcept(__nothrow_queryable_with<env_of_t<_Sender>, _Tag, _Args const &...>)
+          -> __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>
       {
-        return __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>{};
+        return __query<_Tag>()(STDEXEC::get_env(__sndr_), __args...);
       }
 
       _Sender const &__sndr_;
-- 
2.43.0


From e77ba3135943538dff5abf56cf9364656f519c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 66/69] fix: a sequence's attributes did not answer its
 senders' forwarding queries

---
 include/stdexec/__detail/__sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__sequence.hpp b/include/stdexec/__detail/__sequence.hpp
index caa7b02..bd94c31 100644
--- a/include/stdexec/__detail/__sequence.hpp
+++ b/include/stdexec/__detail/__sequence.hpp
@@ -75,7 +75,7 @@ namespace STDEXEC
       template <class _Query, class... _Args>
         requires __queryable_with<env_of_t<_CvSender>, _Query, _Args...>
       STDEXEC_ATTRIBUTE(nodiscard, always_inline, host, device)
-      constexpr auto operator()(_Query, _Args &&...__args) const
+      constexpr auto query(_Query, _Args &&...__args) const
         noexcept(__nothrow_queryable_with<env_of_t<_CvSender>, _Query, _Args...>)
           -> __query_result_t<env_of_t<_CvSender>, _Query, _Args...>
       {
@@ -174,7 +174,7 @@ namespace STDEXEC
       template <__forwarding_query _Query, class... _Args>
         requires(!__completion_query<_Query>) && __queryable_with<__joined_t, _Query, _Args...>
       [[nodiscard]]
-      constexpr auto operator()(_Query, _Args &&...__args) const
+      constexpr auto query(_Query, _Args &&...__args) const
         noexcept(__nothrow_queryable_with<__joined_t, _Query, _Args...>)
           -> __query_result_t<__joined_t, _Query, _Args...>
       {
-- 
2.43.0


From d0b58db2ce8d2ec0a2f59e2ca612a5b4e3924e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:33 +0000
Subject: [PATCH 67/69] fix: starts_on's attributes did not answer its child's
 forwarding queries

---
 include/stdexec/__detail/__starts_on.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/stdexec/__detail/__starts_on.hpp b/include/stdexec/__detail/__starts_on.hpp
index 21ccbd2..1e9242d 100644
--- a/include/stdexec/__detail/__starts_on.hpp
+++ b/include/stdexec/__detail/__starts_on.hpp
@@ -109,6 +109,18 @@ namespace STDEXEC
       {
         return {};
       }
+
+      // Forwards other queries to the child's attributes
+      template <__forwarding_query _Query, class... _Args>
+        requires(!__completion_query<_Query>)
+             && __queryable_with<env_of_t<_Child>, _Query, _Args...>
+      STDEXEC_ATTRIBUTE(nodiscard, always_inline, host, device)
+      constexpr auto query(_Query, _Args&&... __args) const
+        noexcept(__nothrow_queryable_with<env_of_t<_Child>, _Query, _Args...>)
+          -> __query_result_t<env_of_t<_Child>, _Query, _Args...>
+      {
+        return __query<_Query>()(__attr_, static_cast<_Args&&>(__args)...);
+      }
     };
   }  // namespace __starts_on
 
-- 
2.43.0


From 68c98de26357270a5581505578392e623b40559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:14 +0000
Subject: [PATCH 68/69] fix: let_value, let_error and let_stopped promised
 their predecessor's completion behavior, so awaiting or affining one could
 skip the senders its function returns

---
 include/stdexec/__detail/__let.hpp | 32 ++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 5304f2e..a7fb9a8 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -507,6 +507,34 @@ namespace STDEXEC
     //   }
     // };
 
+    // The attributes of the predecessor, except that nothing is known about how the senders
+    // returned by the function complete.
+    template <class _Sender>
+    struct __attrs
+    {
+      template <class _Tag, class... _Env>
+      [[nodiscard]]
+      constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
+      {
+        return __completion_behavior::__unknown;
+      }
+
+      template <__forwarding_query _Query, class... _Args>
+        requires __queryable_with<env_of_t<_Sender>, _Query, _Args...>
+      [[nodiscard]]
+      constexpr auto query(_Query, _Args &&...__args) const
+        noexcept(__nothrow_queryable_with<env_of_t<_Sender>, _Query, _Args...>)
+          -> __query_result_t<env_of_t<_Sender>, _Query, _Args...>
+      {
+        return __query<_Query>()(STDEXEC::get_env(__sndr_), static_cast<_Args &&>(__args)...);
+      }
+
+      _Sender const &__sndr_;
+    };
+
+    template <class _Sender>
+    STDEXEC_HOST_DEVICE_DEDUCTION_GUIDE __attrs(_Sender const &) -> __attrs<_Sender>;
+
     //! Implementation of the `let_*_t` types, where `_SetTag` is, e.g., `set_value_t` for `let_value`.
     template <class _LetTag>
     struct __let_t
@@ -595,10 +623,10 @@ namespace STDEXEC
 
      public:
       static constexpr auto __get_attrs =
-        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept -> decltype(auto)
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
       {
         // TODO(ericniebler): this needs a proper implementation
-        return __fwd_env(STDEXEC::get_env(__child));
+        return __let::__attrs{__child};
       };
 
       template <class _CvSender, class... _Env>
-- 
2.43.0


From 984c9205703c79924ae34f6b10a1a43d89ac4a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:14 +0000
Subject: [PATCH 69/69] fix: affine promised inline completion although the
 sender is adapted and completes asynchronously

---
 include/stdexec/__detail/__affine.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 5dd67db..86fe770 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -147,13 +147,10 @@ namespace STDEXEC
         requires __callable<__get_completion_behavior_t<_Tag>, env_of_t<_Sender>, _Env const &...>
       constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
       {
-        constexpr auto __behavior = __get_completion_behavior<_Tag, _Sender, _Env...>();
-
-        // When the child sender completes inline, we can return "inline" here instead of
-        // "__asynchronous_affine".
-        if constexpr (__behavior == __completion_behavior::__inline_completion)
+        // When the child sender doesn't need to be adapted, it completes as it does on its own.
+        if constexpr (__is_unchanged<_Env...>())
         {
-          return __completion_behavior::__inline_completion;
+          return __get_completion_behavior<_Tag, _Sender, _Env...>();
         }
         else
         {
@@ -171,6 +168,22 @@ namespace STDEXEC
         return __query<_Tag>()(STDEXEC::get_env(__sndr_), __args...);
       }
 
+      // Is the child sender used as it is in the given environment (if any)?
+      template <class... _Env>
+      static consteval auto __is_unchanged() noexcept -> bool
+      {
+        if constexpr (sizeof...(_Env) != 0 && (sender_in<_Sender, _Env> && ...))
+        {
+          return (__is_affine<_Sender, _Env> && ...);
+        }
+        else
+        {
+          return (__completes_where_it_starts<set_value_t, env_of_t<_Sender>, _Env...>)
+              && (__completes_where_it_starts<set_error_t, env_of_t<_Sender>, _Env...>)
+              && (__completes_where_it_starts<set_stopped_t, env_of_t<_Sender>, _Env...>);
+        }
+      }
+
       _Sender const &__sndr_;
     };
 
-- 
2.43.0

