From bc2a5b957f637b1f0a6228c45c8168f45743dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 01/31] fix: multi producer capacity check must not truncate
 the 64-bit cursor to int

---
 .../high_performance/disruptor4cpp/multi_producer_sequencer.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 02fe4d2..49f4b61 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -230,7 +230,7 @@ private:
     static constexpr int INDEX_MASK = static_cast<int>(BufferSize) - 1;
     static constexpr int INDEX_SHIFT = util::log2(BufferSize);
 
-    bool has_available_capacity(int required_capacity, int cursor_value)
+    bool has_available_capacity(int required_capacity, int64_t cursor_value)
     {
         int64_t wrap_point = (cursor_value + required_capacity) - static_cast<int64_t>(BufferSize);
         int64_t cached_gating_sequence = gating_sequence_cache_.get();
-- 
2.43.0


From 2fd6886b794ea2199ffad2f42d4c40262a912e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 02/31] fix: multi producer availability flags must be atomic
 to hand off published events

---
 .../disruptor4cpp/multi_producer_sequencer.h         | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 49f4b61..6f59442 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -47,9 +47,9 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 #define DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
-#include <cstring>
 #include <memory>
 #include <stdexcept>
 #include <thread>
@@ -79,7 +79,9 @@ public:
         , wait_strategy_()
         , gating_sequences_()
     {
-        std::memset(available_buffer_, ~0, sizeof(available_buffer_));
+        for (auto &flag : available_buffer_) {
+            flag.store(-1, std::memory_order_relaxed);
+        }
     }
 
     ~multi_producer_sequencer() = default;
@@ -209,7 +211,7 @@ public:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        return available_buffer_[index] == flag;
+        return available_buffer_[index].load(std::memory_order_acquire) == flag;
     }
 
     int64_t get_highest_published_sequence(int64_t lower_bound, int64_t available_sequence) const
@@ -247,7 +249,7 @@ private:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        available_buffer_[index] = flag;
+        available_buffer_[index].store(flag, std::memory_order_release);
     }
 
     int calculate_availability_flag(int64_t seq) const
@@ -261,7 +263,7 @@ private:
     TSequence gating_sequence_cache_;
     TWaitStrategy wait_strategy_;
     std::vector<TSequence *> gating_sequences_;
-    int available_buffer_[BufferSize];
+    std::atomic<int> available_buffer_[BufferSize];
 };
 } // namespace disruptor4cpp
 
-- 
2.43.0


From 61cdb1bc79409c837dc137bbc3bbedde49e60cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 03/31] fix: lite blocking wait strategy must announce waiters
 with a read-modify-write

A plain release store can become visible after the re-check of the cursor, so a concurrent
publish neither sees the waiter nor is seen by it and the consumer sleeps through the event.
---
 .../wait_strategies/lite_blocking_wait_strategy.h             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
index c3d65de..7980b5f 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
@@ -74,7 +74,7 @@ public:
         if ((available_sequence = cursor_sequence.get()) < seq) {
             std::unique_lock<std::recursive_mutex> lock(mutex_);
             do {
-                signal_needed_.store(true, std::memory_order_release);
+                signal_needed_.exchange(true, std::memory_order_acq_rel);
                 if ((available_sequence = cursor_sequence.get()) >= seq)
                     break;
 
@@ -91,7 +91,7 @@ public:
 
     void signal_all_when_blocking()
     {
-        if (signal_needed_.exchange(false, std::memory_order_release)) {
+        if (signal_needed_.exchange(false, std::memory_order_acq_rel)) {
             std::lock_guard<std::recursive_mutex> lock(mutex_);
             processor_notify_condition_.notify_all();
         }
-- 
2.43.0


From c89967eba88b0330944aa13ad2eaa4ecfe3baa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 04/31] fix: no_op_event_processor::halt must alert its barrier
 so that run returns

---
 .../high_performance/disruptor4cpp/no_op_event_processor.h  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index 833c6ff..af78866 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -82,7 +82,11 @@ public:
 
     typename TRingBuffer::sequence_type &get_sequence() { return sequence_; }
 
-    void halt() { running_.store(false, std::memory_order_release); }
+    void halt()
+    {
+        running_.store(false, std::memory_order_release);
+        sequence_barrier_.alert();
+    }
 
     bool is_running() const { return running_.load(std::memory_order_acquire); }
 
-- 
2.43.0


From 150c73d1ee7102b9ee94b38734940ceed1ce9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 05/31] fix: halt issued while an event processor starts must
 not be lost

run() cleared the barrier's alert after publishing that it is running, so a halt in between
was forgotten and run() never returned.
---
 .../high_performance/disruptor4cpp/batch_event_processor.h      | 2 +-
 .../high_performance/disruptor4cpp/no_op_event_processor.h      | 2 +-
 .../klepsydra/high_performance/disruptor4cpp/sequence_barrier.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
index 7ac664f..656ae9d 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
@@ -112,7 +112,7 @@ public:
         typename TRingBuffer::event_type *event = nullptr;
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            while (running_.load(std::memory_order_acquire)) {
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index af78866..5dd6123 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -101,7 +101,7 @@ public:
         sequence_barrier_.clear_alert();
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            while (running_.load(std::memory_order_acquire)) {
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
index c56db6d..cab8177 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
@@ -102,7 +102,7 @@ public:
         wait_strategy_.signal_all_when_blocking();
     }
 
-    void clear_alert() { alerted_.store(false, std::memory_order_release); }
+    void clear_alert() { alerted_.exchange(false, std::memory_order_acq_rel); }
 
     void check_alert() const
     {
-- 
2.43.0


From f7a425933699c018969bfd357faa2e4a09d372de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 06/31] fix: lock free stack links must be atomic, and read
 after acquiring the head

A thread popping a node reads its link while another thread may already have
popped and re-pushed that node and be writing the link: a data race on a plain
uint16_t. The head that leads to the link was also read with relaxed ordering,
so the link need not have been visible yet.
---
 .../modules/core/include/klepsydra/core/lock_free_stack.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/lock_free_stack.h b/core/modules/core/include/klepsydra/core/lock_free_stack.h
index a60e83c..c9b07c2 100644
--- a/core/modules/core/include/klepsydra/core/lock_free_stack.h
+++ b/core/modules/core/include/klepsydra/core/lock_free_stack.h
@@ -33,7 +33,7 @@ class LockFreeStack
 
     struct node_t final
     {
-        uint16_t index_next;
+        std::atomic<uint16_t> index_next;
     };
 
     struct head_t final
@@ -109,12 +109,12 @@ public:
 private:
     node_t *_pop(std::atomic<head_t> &h)
     {
-        head_t next, orig = h.load(std::memory_order_relaxed);
+        head_t next, orig = h.load(std::memory_order_acquire);
         do {
             if (orig.node_index == UNDEF_INDEX)
                 return nullptr;
             next.aba = orig.aba + 1;
-            next.node_index = node_buffer[orig.node_index].index_next;
+            next.node_index = node_buffer[orig.node_index].index_next.load(std::memory_order_relaxed);
         } while (!h.compare_exchange_weak(orig,
                                           next,
                                           std::memory_order_acq_rel,
@@ -126,7 +126,7 @@ private:
     {
         head_t next, orig = h.load(std::memory_order_relaxed);
         do {
-            node->index_next = orig.node_index;
+            node->index_next.store(orig.node_index, std::memory_order_relaxed);
             next.aba = orig.aba + 1;
             next.node_index = _getIndex(node);
         } while (!h.compare_exchange_weak(orig,
-- 
2.43.0


From 72c71df9de31411fd89a29ecd124bec00dfcd45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 07/31] fix: lock free stack must handle capacity 0 and reject
 capacities it cannot index

Capacity 0 wrote before the node buffer, and elements beyond the 16-bit index
range were silently lost.
---
 .../core/include/klepsydra/core/lock_free_stack.h     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/lock_free_stack.h b/core/modules/core/include/klepsydra/core/lock_free_stack.h
index c9b07c2..7c3de45 100644
--- a/core/modules/core/include/klepsydra/core/lock_free_stack.h
+++ b/core/modules/core/include/klepsydra/core/lock_free_stack.h
@@ -19,7 +19,9 @@
 
 #include <atomic>
 #include <iostream>
+#include <functional>
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 namespace kpsr {
@@ -29,8 +31,6 @@ class LockFreeStack
 {
     static const int UNDEF_INDEX = 65535;
 
-    // TODO see if constructor should throw if requested capacity is > (UNDEF_INDEX - 1)
-
     struct node_t final
     {
         std::atomic<uint16_t> index_next;
@@ -66,12 +66,19 @@ class LockFreeStack
 public:
     LockFreeStack(size_t capacity, std::function<void(T &)> initFunction)
     {
+        if (capacity > UNDEF_INDEX) {
+            throw std::length_error("LockFreeStack: capacity cannot exceed 65535.");
+        }
         size_t realCapacity = capacity;
         free_nodes.store(head_t(), std::memory_order_relaxed);
         // preallocate nodes
         node_buffer_ptr.reset(new aligned_node_t[realCapacity]);
         node_buffer = reinterpret_cast<node_t *>(node_buffer_ptr.get());
         data_buffer.resize(realCapacity);
+        if (realCapacity == 0) {
+            head.store(head_t(), std::memory_order_relaxed);
+            return;
+        }
         for (size_t i = 0; i < realCapacity - 1; ++i) {
             if (initFunction != nullptr) {
                 initFunction(data_buffer[i]);
-- 
2.43.0


From 1ff5cf60895998d68cd03114ec05514400f957df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 08/31] fix: smart object pool must compile: std::exception has
 no message constructor

---
 core/modules/core/include/klepsydra/core/smart_object_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index f4f1d36..c59d591 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -128,13 +128,13 @@ public:
     /*!
      * @brief empty
      */
-    bool empty() const { throw std::exception("Unsupported operation."); }
+    bool empty() const { throw std::logic_error("Unsupported operation."); }
 
     /*!
      * @brief size
      * @return
      */
-    size_t size() const { throw std::exception("Unsupported operation."); }
+    size_t size() const { throw std::logic_error("Unsupported operation."); }
 
     /*!
      * @brief objectPoolFails
-- 
2.43.0


From be9e07dc60bd75942c19143845aa29758ba08be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 09/31] fix: failed acquisitions of an object pool must be
 counted atomically

acquire() may fail in several threads at once; the plain increment was a data
race and lost counts.
---
 core/modules/core/include/klepsydra/core/smart_object_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index c59d591..4d2b3a9 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -17,6 +17,7 @@
 #ifndef SMART_OBJECT_POOL_H
 #define SMART_OBJECT_POOL_H
 
+#include <atomic>
 #include <functional>
 #include <klepsydra/core/lock_free_stack.h>
 #include <memory>
@@ -139,7 +140,7 @@ public:
     /*!
      * @brief objectPoolFails
      */
-    long objectPoolFails = 0;
+    std::atomic<long> objectPoolFails{0};
 
 private:
     std::function<void(T &)> _finalizerFunction;
-- 
2.43.0


From 5e806fbe5815d9b664be9f0c673e09a80992b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 10/31] fix: socket close releases its descriptor exactly once
 and reports success as success

---
 core/modules/socket_mdlw/src/base_socket.cpp | 43 +++++++++-----------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/core/modules/socket_mdlw/src/base_socket.cpp b/core/modules/socket_mdlw/src/base_socket.cpp
index 506ef7b..ecac501 100644
--- a/core/modules/socket_mdlw/src/base_socket.cpp
+++ b/core/modules/socket_mdlw/src/base_socket.cpp
@@ -58,30 +58,27 @@ void kpsr::socket_mdlw::BaseSocket::close()
                               __func__,
                               ": accept called on a bad socket object (this object was moved)"));
     }
-    while (true) {
-        int state = ::close(socketId);
-        if (state == invalidSocketId) {
-            break;
-        }
-        switch (errno) {
-        case EBADF:
-            throw std::domain_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EBADF: ", socketId, " ", std::strerror(errno)));
-        case EIO:
-            throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EIO:  ", socketId, " ", std::strerror(errno)));
-        case EINTR: {
-            // TODO: Check for user interrupt flags.
-            //       Beyond the scope of this project
-            //       so continue normal operations.
-            break;
-        }
-        default:
-            throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: ???:  ", socketId, " ", std::strerror(errno)));
-        }
-    }
+    // The descriptor is released by the first call to close, whatever it returns:
+    // it must never be closed a second time.
+    int const closingId = socketId;
     socketId = invalidSocketId;
+    if (::close(closingId) == 0) {
+        return;
+    }
+    switch (errno) {
+    case EBADF:
+        throw std::domain_error(buildErrorMessage(
+            "BaseSocket::", __func__, ": close: EBADF: ", closingId, " ", std::strerror(errno)));
+    case EIO:
+        throw std::runtime_error(buildErrorMessage(
+            "BaseSocket::", __func__, ": close: EIO:  ", closingId, " ", std::strerror(errno)));
+    case EINTR:
+        // Interrupted by a signal: the descriptor is closed all the same.
+        break;
+    default:
+        throw std::runtime_error(buildErrorMessage(
+            "BaseSocket::", __func__, ": close: ???:  ", closingId, " ", std::strerror(errno)));
+    }
 }
 
 void kpsr::socket_mdlw::BaseSocket::swap(kpsr::socket_mdlw::BaseSocket &other) noexcept
-- 
2.43.0


From c7070142a9b3103a6e6a20c67de4cdbc60b37d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 11/31] fix: reading from a moved or closed socket is refused,
 reading from descriptor 0 is not

---
 .../socket_mdlw/include/klepsydra/socket_core/data_socket.tpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
index c9323ea..f48a401 100644
--- a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
+++ b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
@@ -35,7 +35,7 @@ template<typename F>
  */
 std::size_t DataSocket::getMessageData(char* buffer, std::size_t size, F scanForEnd)
 {
-    if (getSocketId() == 0)
+    if (getSocketId() == invalidSocketId)
     {
         throw std::logic_error(buildErrorMessage("DataSocket::", __func__, ": accept called on a bad socket object (this object was moved)"));
     }
-- 
2.43.0


From 5c09b31cd510da9b8bfca31484c671c768e5ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 12/31] fix: accept waits with poll, so that descriptors of
 1024 and above do not overflow an fd_set

---
 .../modules/socket_mdlw/src/server_socket.cpp | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/core/modules/socket_mdlw/src/server_socket.cpp b/core/modules/socket_mdlw/src/server_socket.cpp
index 31bcae1..eeaa919 100644
--- a/core/modules/socket_mdlw/src/server_socket.cpp
+++ b/core/modules/socket_mdlw/src/server_socket.cpp
@@ -16,8 +16,12 @@
 #include <sys/un.h>
 
 #include <fcntl.h>
+#include <poll.h>
 #include <unistd.h>
 
+#include <algorithm>
+#include <limits>
+
 #include <klepsydra/socket_core/server_socket.h>
 #include <klepsydra/socket_core/utility.h>
 
@@ -79,19 +83,16 @@ std::shared_ptr<kpsr::socket_mdlw::DataSocket> kpsr::socket_mdlw::ServerSocket::
                               ": accept called on a bad socket object (this object was moved)"));
     }
 
-    struct timeval tv;
-    fd_set readfds;
-
-    tv.tv_sec = timeout;
-    tv.tv_usec = 0;
-
-    FD_ZERO(&readfds);
-    FD_SET(getSocketId(), &readfds);
+    // poll, unlike select, works for every descriptor number
+    struct pollfd ready
+    {};
+    ready.fd = getSocketId();
+    ready.events = POLLIN;
+    int const milliseconds = std::min(std::max(timeout, 0), std::numeric_limits<int>::max() / 1000)
+                             * 1000;
 
     // Wait until the socket is ready to accept, or a timeout occurs
-    ::select(getSocketId() + 1, &readfds, NULL, NULL, &tv);
-
-    if (!FD_ISSET(getSocketId(), &readfds)) {
+    if (::poll(&ready, 1, milliseconds) <= 0) {
         throw std::runtime_error(
             buildErrorMessage("ServerSocket:", __func__, ": accept: Timed out"));
     }
-- 
2.43.0


From a94d5e4730c2336dd06a39935661ea3430139986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 13/31] fix: a unix socket path that does not fit is refused
 instead of truncated to another one

---
 core/modules/socket_mdlw/src/connect_socket.cpp | 5 +++++
 core/modules/socket_mdlw/src/server_socket.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/core/modules/socket_mdlw/src/connect_socket.cpp b/core/modules/socket_mdlw/src/connect_socket.cpp
index 049fab8..f852507 100644
--- a/core/modules/socket_mdlw/src/connect_socket.cpp
+++ b/core/modules/socket_mdlw/src/connect_socket.cpp
@@ -44,6 +44,11 @@ kpsr::socket_mdlw::ConnectSocket::ConnectSocket(const std::string &path)
     struct sockaddr_un serverAddr
     {};
     serverAddr.sun_family = AF_UNIX;
+    if (path.size() >= sizeof(serverAddr.sun_path)) {
+        close();
+        throw std::runtime_error(
+            buildErrorMessage("ConnectSocket::", __func__, ": path too long: ", path));
+    }
     strncpy(serverAddr.sun_path, path.data(), sizeof(serverAddr.sun_path) - 1);
 
     if (::connect(getSocketId(), (struct sockaddr *) &serverAddr, sizeof(serverAddr)) != 0) {
diff --git a/core/modules/socket_mdlw/src/server_socket.cpp b/core/modules/socket_mdlw/src/server_socket.cpp
index eeaa919..208b5f6 100644
--- a/core/modules/socket_mdlw/src/server_socket.cpp
+++ b/core/modules/socket_mdlw/src/server_socket.cpp
@@ -56,6 +56,11 @@ kpsr::socket_mdlw::ServerSocket::ServerSocket(const std::string &socketPath)
     struct sockaddr_un serverAddr
     {};
     serverAddr.sun_family = AF_UNIX;
+    if (socketPath.size() >= sizeof(serverAddr.sun_path)) {
+        close();
+        throw std::runtime_error(
+            buildErrorMessage("ServerSocket::", __func__, ": path too long: ", socketPath));
+    }
     strncpy(serverAddr.sun_path, socketPath.data(), sizeof(serverAddr.sun_path) - 1);
 
     // Set the server socket to non-blocking
-- 
2.43.0


From 196fe5044ec63a17d099228055202da7bfff718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 14/31] fix: a timed pop of a SafeQueue checks for an item
 after every wake-up

---
 .../include/klepsydra/mem_core/safe_queue.h        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index d331aab..39197ab 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -287,8 +287,11 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            // a wake-up may be spurious, or the item taken by another consumer
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
@@ -315,8 +318,11 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            // a wake-up may be spurious, or the item taken by another consumer
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() // Lambda funct
+                                                { return !m_queue.empty(); }))
                 return false;
         }
 
-- 
2.43.0


From 7fcd8f0174580b3d1e03fd745f26f9d6ae0f53e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 15/31] fix: a blocking push into an unlimited SafeQueue does
 not wait forever

---
 .../include/klepsydra/mem_core/safe_queue.h       | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 39197ab..2ea3b2c 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -89,7 +89,10 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  {
+                                      return m_max_num_items == 0 ||
+                                             m_queue.size() < m_max_num_items;
+                                  });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -106,7 +109,10 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  {
+                                      return m_max_num_items == 0 ||
+                                             m_queue.size() < m_max_num_items;
+                                  });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -123,7 +129,10 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  {
+                                      return m_max_num_items == 0 ||
+                                             m_queue.size() < m_max_num_items;
+                                  });
 
         m_queue.push(std::move(item));
         m_non_empty_condition.notify_one();
-- 
2.43.0


From 191e71c499beb7849c1b05cd8202ab5fbe27e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 16/31] fix: changing the limit of a SafeQueue is synchronised
 and wakes blocked producers

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 2ea3b2c..9ed8415 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -77,7 +77,12 @@ public:
      * @brief set_max_num_items Sets the maximum number of items in the queue. Defaults is 0: No limit
      * @param max_num_items
      */
-    void set_max_num_items(unsigned int max_num_items) { m_max_num_items = max_num_items; }
+    void set_max_num_items(unsigned int max_num_items)
+    {
+        std::lock_guard<std::mutex> lock(m_mutex);
+        m_max_num_items = max_num_items;
+        m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief push Pushes the item into the queue. It blocks if the queue is full
-- 
2.43.0


From f268c7b4381cd68a3f5a582d8e4839d7ab6f09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 17/31] fix: a copied or moved SafeQueue keeps its limit

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 9ed8415..78ff207 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -59,7 +59,13 @@ public:
      * @brief SafeQueue
      * @param sq
      */
-    SafeQueue(SafeQueue &&sq) { m_queue = std::move(sq.m_queue); }
+    SafeQueue(SafeQueue &&sq)
+    {
+        std::lock_guard<std::mutex> lock(sq.m_mutex);
+        m_queue = std::move(sq.m_queue);
+        m_max_num_items = sq.m_max_num_items;
+        sq.m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief SafeQueue
@@ -69,6 +75,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(sq.m_mutex);
         m_queue = sq.m_queue;
+        m_max_num_items = sq.m_max_num_items;
     }
 
     ~SafeQueue() { std::lock_guard<std::mutex> lock(m_mutex); }
-- 
2.43.0


From 9adcc96631299d7515895d2e12856c3de1bd9d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 18/31] fix: exchanging or assigning SafeQueues locks both,
 cannot deadlock and wakes blocked producers

---
 .../include/klepsydra/mem_core/safe_queue.h   | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 78ff207..fd9a1a0 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -390,8 +390,10 @@ public:
     void swap(SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            // both locks are taken together: two queues may be exchanged both ways at once
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
             m_queue.swap(sq.m_queue);
 
             if (!m_queue.empty())
@@ -399,6 +401,9 @@ public:
 
             if (!sq.m_queue.empty())
                 sq.m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
         }
     }
 
@@ -410,13 +415,17 @@ public:
     SafeQueue &operator=(const SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            // both locks are taken together: two queues may be exchanged both ways at once
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
             std::queue<T, Container> temp{sq.m_queue};
             m_queue.swap(temp);
 
             if (!m_queue.empty())
                 m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
         }
 
         return *this;
@@ -429,11 +438,18 @@ public:
      */
     SafeQueue &operator=(SafeQueue &&sq)
     {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        m_queue = std::move(sq.m_queue);
+        if (this != &sq) {
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
+            m_queue = std::move(sq.m_queue);
 
-        if (!m_queue.empty())
-            m_non_empty_condition.notify_all();
+            if (!m_queue.empty())
+                m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
+        }
 
         return *this;
     }
-- 
2.43.0


From 81be61362b711a41ed799446499e93ec9ff15bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 19/31] fix: observers of a state machine are all told the same
 state, and may change the observers or trigger updates

---
 .../modules/state_machine/src/state_machine_impl.cpp       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 684a9a2..de168bf 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -74,8 +74,11 @@ void StateMachineImpl::enqueueAndUpdate(const std::string &event)
 
 void StateMachineImpl::updateObservers(const std::string &stateId, bool stateChanged)
 {
-    for (auto observer : _observers) {
-        observer(_id + ":" + stateId, stateChanged);
+    // an observer may trigger the next update, or change the observers, while it runs
+    const std::string currentState = _id + ":" + stateId;
+    const auto observers = _observers;
+    for (auto observer : observers) {
+        observer(currentState, stateChanged);
     }
 }
 
-- 
2.43.0


From df2b790778428d9230856c88547c8ade613a08c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 20/31] fix: one-off actions run once, and actions may change
 the registrations of their listener

---
 .../state_machine/src/state_machine_listener.cpp  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 61edb07..1caf97e 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -54,21 +54,26 @@ void StateMachineListener::removeActions()
 
 void StateMachineListener::updateCurrentState(const std::string &currentStateId, bool stateChanged)
 {
+    // an action may change the registrations, or trigger the next update, while it runs
     if (stateChanged) {
-        if (_oneOffActions.find(currentStateId) != _oneOffActions.end()) {
-            for (auto action : _oneOffActions[currentStateId]) {
+        auto oneOff = _oneOffActions.find(currentStateId);
+        if (oneOff != _oneOffActions.end()) {
+            auto actions = std::move(oneOff->second);
+            _oneOffActions.erase(oneOff);
+            for (auto action : actions) {
                 action(currentStateId);
             }
-            _oneOffActions.erase(currentStateId);
         }
         if (_actions.find(currentStateId) != _actions.end()) {
-            for (auto action : _actions[currentStateId]) {
+            auto actions = _actions[currentStateId];
+            for (auto action : actions) {
                 action(currentStateId);
             }
         }
     }
     if (_periodicActions.find(currentStateId) != _periodicActions.end()) {
-        for (auto action : _periodicActions[currentStateId]) {
+        auto actions = _periodicActions[currentStateId];
+        for (auto action : actions) {
             action(currentStateId);
         }
     }
-- 
2.43.0


From 313c52895d727bce82c4acfcfc36a1b13038afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 21/31] fix: void caster mapper refuses messages shorter than
 the event; own include guard

---
 .../klepsydra/serialization/void_caster_mapper.h       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 452b703..a37f443 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -14,11 +14,12 @@
  * limitations under the License.
  */
 
-#ifndef IDENTITY_MAPPER_H
-#define IDENTITY_MAPPER_H
+#ifndef VOID_CASTER_MAPPER_H
+#define VOID_CASTER_MAPPER_H
 
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 #include <klepsydra/serialization/mapper.h>
@@ -45,6 +46,9 @@ public:
      */
     void fromMiddleware(const std::vector<unsigned char> &message, T &event)
     {
+        if (message.size() < sizeof(T)) {
+            throw std::length_error("message is too short for the event");
+        }
         std::memcpy(&event, message.data(), sizeof(T));
     }
 
@@ -62,4 +66,4 @@ public:
 };
 } // namespace kpsr
 
-#endif // IDENTITY_MAPPER_H
+#endif // VOID_CASTER_MAPPER_H
-- 
2.43.0


From cc536726b2f36abe516a8afee00c2eae3e3be5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 22/31] fix: a poller whose start timed out can be stopped and
 destroyed

---
 core/modules/mem_mdlw/src/in_memory_queue_poller.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
index 9f397b6..79d8295 100644
--- a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
+++ b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
@@ -39,17 +39,19 @@ void InMemoryQueuePoller::stop()
     if (!isStarted()) {
         return;
     }
+    _started.store(false, std::memory_order_release);
     _running.store(false, std::memory_order_release);
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
     }
+    _running.store(false, std::memory_order_release); // the loop may have begun after all
     _loopFunction = (std::packaged_task<void()>(
         std::bind(&InMemoryQueuePoller::pollingLoop, this))); // to allow restarting
-    _started.store(false, std::memory_order_release);
 }
 
 InMemoryQueuePoller::~InMemoryQueuePoller()
 {
+    _started = false;
     _running = false;
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
@@ -59,7 +61,7 @@ InMemoryQueuePoller::~InMemoryQueuePoller()
 void InMemoryQueuePoller::pollingLoop()
 {
     _running.store(true, std::memory_order_release);
-    while (isRunning()) {
+    while (isRunning() && isStarted()) {
         takeEventFromQueue();
     }
 }
-- 
2.43.0


From 22d21aa03f0de0ad2860e90ec230aafbc7fafaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:57 +0000
Subject: [PATCH 23/31] fix: SafeEventEmitter runs a one-time listener once and
 locks every access to the listeners

---
 .../klepsydra/core/safe_event_emitter.h       | 59 +++++++++++++------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 6354945..f1cb3f3 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -18,9 +18,11 @@
 #define SAFE_EVENT_EMITTER_H_
 
 #include <algorithm>
+#include <atomic>
 #include <list>
 #include <map>
 #include <mutex>
+#include <vector>
 
 #include <spdlog/spdlog.h>
 
@@ -87,20 +89,7 @@ public:
      */
     void removeListener(Container *container, unsigned int listenerId) override
     {
-        std::lock_guard<std::mutex> lock(mutex);
-
-        auto i = std::find_if(listeners.begin(),
-                              listeners.end(),
-                              [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
-                                  return p.second->id == listenerId;
-                              });
-        if (i != listeners.end()) {
-            auto &listenerBasePtr = i->second;
-            if ((container != nullptr) && (listenerBasePtr->listenerStats)) {
-                container->detach(listenerBasePtr->listenerStats.get());
-            }
-            listeners.erase(i);
-        } else {
+        if (!eraseListener(container, listenerId)) {
             throw std::invalid_argument(
                 "kpsr::SafeEventEmitter::removeListener: Invalid listener id.");
         }
@@ -117,7 +106,7 @@ public:
                    const Event &event) override
     {
         spdlog::trace("{}. subscriberName: {}", __PRETTY_FUNCTION__, subscriberName);
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
 
@@ -132,10 +121,14 @@ public:
         }
 
         for (auto &h : handlers) {
-            h->runCallback(event, enqueuedTimeNs);
             if (h->isOnce) {
-                removeListener(nullptr, h->id);
+                // A nested or concurrent emission may hold this listener as well: only one runs it.
+                if (h->executed.exchange(true)) {
+                    continue;
+                }
+                eraseListener(nullptr, h->id);
             }
+            h->runCallback(event, enqueuedTimeNs);
         }
     }
 
@@ -146,7 +139,7 @@ public:
      */
     void discardEvent(const std::string &subscriberName) override
     {
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
             auto range = listeners.equal_range(subscriberName);
@@ -176,6 +169,8 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
+
         auto i = std::find_if(listeners.begin(),
                               listeners.end(),
                               [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
@@ -189,9 +184,14 @@ public:
 
     void removeAllListeners(Container *container) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
+
         if (container) {
             for (auto &subscriberListenerBasePair : listeners) {
-                container->detach(subscriberListenerBasePair.second->listenerStats.get());
+                auto &listenerStats = subscriberListenerBasePair.second->listenerStats;
+                if (listenerStats) {
+                    container->detach(listenerStats.get());
+                }
             }
         }
         // clear the map
@@ -222,6 +222,7 @@ private:
 
         unsigned int id;
         bool isOnce;
+        std::atomic<bool> executed{false};
         std::function<void(const Event &event)> callback;
         std::shared_ptr<SubscriptionStats> listenerStats;
     };
@@ -242,6 +243,26 @@ private:
         }
     };
 
+    bool eraseListener(Container *container, unsigned int listenerId)
+    {
+        std::lock_guard<std::mutex> lock(mutex);
+
+        auto i = std::find_if(listeners.begin(),
+                              listeners.end(),
+                              [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
+                                  return p.second->id == listenerId;
+                              });
+        if (i == listeners.end()) {
+            return false;
+        }
+        auto &listenerBasePtr = i->second;
+        if ((container != nullptr) && (listenerBasePtr->listenerStats)) {
+            container->detach(listenerBasePtr->listenerStats.get());
+        }
+        listeners.erase(i);
+        return true;
+    }
+
     unsigned int addListener(Container *container,
                              const std::string &listenerName,
                              const std::string &subscriberName,
-- 
2.43.0


From c04a5940890cd3d10281ed3c8f6f159366f8f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:57 +0000
Subject: [PATCH 24/31] fix: UnsafeMultiListenerEventEmitter forgets the
 statistics of removed listeners

---
 .../klepsydra/core/unsafe_multi_listener_event_emitter.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
index 07a6d87..f135927 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
@@ -142,8 +142,8 @@ public:
                 _listenersNameMap.erase(listenerName);
                 if (container && (_listenerStats.find(listenerId) != _listenerStats.end())) {
                     container->detach(_listenerStats[listenerId].get());
-                    _listenerStats.erase(listenerId);
                 }
+                _listenerStats.erase(listenerId);
             }
 
             for (auto &subscriber : _subscriberNameMap) {
@@ -176,7 +176,7 @@ public:
         }
         _listenersNameMap.clear();
         _subscriberNameMap.clear();
-        _listenersNameMap.clear();
+        _listenerStats.clear();
         _listeners.clear();
     }
 
@@ -227,10 +227,11 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
-        if (_listenerStats.size() <= listenerId) {
+        auto listenerStatsIterator = _listenerStats.find(listenerId);
+        if (_listenerStats.end() == listenerStatsIterator) {
             return nullptr;
         }
-        return _listenerStats.at(listenerId);
+        return listenerStatsIterator->second;
     }
 
 private:
-- 
2.43.0


From 705a3cae08a1f7f8312b7a05d1e2791390699ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:57 +0000
Subject: [PATCH 25/31] fix: UnsafeSingleListenerEventEmitter detaches
 statistics only if there are any

---
 .../klepsydra/core/unsafe_single_listener_event_emitter.h      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
index 65e9710..52b9e50 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
@@ -85,6 +85,7 @@ public:
                     this->_singleListenerStats->stopProcessMeasure();
                 };
             } else {
+                _singleListenerStats.reset();
                 _singleListenerWrapper = [this](const Event &event,
                                                 long long unsigned int enqueuedTimeNs) {
                     this->_singleListener(event);
@@ -117,7 +118,7 @@ public:
         if (listenerId == 0) {
             _listenerRegistered = false;
             _singleListener = [](const Event &event) {};
-            if (container) {
+            if (container && _singleListenerStats) {
                 container->detach(_singleListenerStats.get());
                 _singleListenerStats.reset();
             }
-- 
2.43.0


From 69a14f6c16690ef552be332d73957f879bca3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:26 +0000
Subject: [PATCH 26/31] fix: DataMultiplexerPublisher gives the claimed slot
 back when a callback fails

---
 .../data_multiplexer_publisher.h              | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
index dfe006e..a972385 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
@@ -97,7 +97,13 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventCloner(event, _ringBuffer[seq].eventData);
+            try {
+                _eventCloner(event, _ringBuffer[seq].eventData);
+            } catch (...) {
+                // the claimed slot was not filled: give it back, or the next event would publish it.
+                _ringBuffer.claim(seq - 1);
+                throw;
+            }
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -116,7 +122,13 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventClonerSharedPtr(event, _ringBuffer[seq].eventData);
+            try {
+                _eventClonerSharedPtr(event, _ringBuffer[seq].eventData);
+            } catch (...) {
+                // the claimed slot was not filled: give it back, or the next event would publish it.
+                _ringBuffer.claim(seq - 1);
+                throw;
+            }
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -136,7 +148,13 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            process(*_ringBuffer[seq].eventData);
+            try {
+                process(*_ringBuffer[seq].eventData);
+            } catch (...) {
+                // the claimed slot was not filled: give it back, or the next event would publish it.
+                _ringBuffer.claim(seq - 1);
+                throw;
+            }
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
-- 
2.43.0


From 1c5c8591c1b7246248162e91067c45f4ee8db6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:36 +0000
Subject: [PATCH 27/31] fix: asking a subscriber for statistics of an unknown
 name registers nothing

---
 .../include/klepsydra/core/event_emitter_subscriber.h    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
index 731899f..67047b2 100644
--- a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
+++ b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
@@ -167,11 +167,16 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name)
     {
+        auto listenerIterator = _listenersMap.find(name);
+        if (listenerIterator == _listenersMap.end()) {
+            spdlog::debug("{}. Listener {} not found.", __PRETTY_FUNCTION__, name);
+            return nullptr;
+        }
         spdlog::trace("{}. ListenerId {} for name: {}",
                       __PRETTY_FUNCTION__,
-                      _listenersMap[name],
+                      listenerIterator->second,
                       name);
-        return _eventEmitter->getListenerStats(_listenersMap[name]);
+        return _eventEmitter->getListenerStats(listenerIterator->second);
     }
 
 protected:
-- 
2.43.0


From bdc4769e441681dbbdb570a6007bb8197f5bd1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:31 +0000
Subject: [PATCH 28/31] fix: a multiplexer reader can always be stopped and
 leaves the ring

---
 .../data_multiplexer_subscriber.h             | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
index 47c3530..ec74faa 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
@@ -102,6 +102,7 @@ public:
         long counterUs = 0;
         while (!this->batchEventProcessor->is_running()) {
             if (counterUs > _timeoutUs) {
+                stopBatchProcessor();
                 throw std::runtime_error("Could not start the DataMultiplexerListener");
             }
             std::this_thread::sleep_for(std::chrono::microseconds(100));
@@ -115,18 +116,26 @@ public:
         if (!_started) {
             return;
         }
-        while (!batchEventProcessor->is_running()) {
-            std::this_thread::sleep_for(std::chrono::microseconds(1));
+        stopBatchProcessor();
+    }
+
+    std::unique_ptr<BatchProcessor> batchEventProcessor;
+
+private:
+    void stopBatchProcessor()
+    {
+        // The thread might not have begun yet, or might have ended because of an exception.
+        while (!batchEventProcessor->is_running() &&
+               _batchProcessorThreadFuture.wait_for(std::chrono::microseconds(1)) !=
+                   std::future_status::ready) {
         }
         batchEventProcessor->halt();
         if (_batchProcessorThread.joinable()) {
             _batchProcessorThread.join();
         }
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
     }
 
-    std::unique_ptr<BatchProcessor> batchEventProcessor;
-
-private:
     RingBuffer &_ringBuffer;
     DataMultiplexerEventHandler<TEvent> _eventHandler;
     std::atomic<bool> _started;
-- 
2.43.0


From b3a32697d2a12cf6a54f585e788ee1b615854772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:31 +0000
Subject: [PATCH 29/31] fix: an event loop can be stopped after a failed start,
 and leaves the ring when destroyed

---
 .../include/klepsydra/high_performance/event_loop.h   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 1c11a91..c98657e 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -95,6 +95,12 @@ public:
             new BatchProcessor(_ringBuffer, std::move(barrier), _eventHandler, name));
     }
 
+    ~EventLoop()
+    {
+        stop();
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
+    }
+
     /**
      * @brief start start consumer thread
      */
@@ -128,6 +134,11 @@ public:
             return;
         }
         _isStarted.store(false, std::memory_order_release);
+        // The thread might not have begun yet, or might have ended because of an exception.
+        while (!this->batchEventProcessor->is_running() &&
+               _batchProcessorThreadFuture.wait_for(std::chrono::microseconds(1)) !=
+                   std::future_status::ready) {
+        }
         this->batchEventProcessor->halt();
         spdlog::debug("kpsr::high_perf::EventLoop::stop. Halting the batchEventProcessor");
         if (this->batchProcessorThread.joinable()) {
-- 
2.43.0


From 48cbf691125da50fc14d3dec9d8b9f0f715797be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:31 +0000
Subject: [PATCH 30/31] fix: setting a dynamic property again replaces its
 value

---
 .../core/include/klepsydra/core/configuration_properties.h      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/configuration_properties.h b/core/modules/core/include/klepsydra/core/configuration_properties.h
index 12216fb..9bf23ef 100644
--- a/core/modules/core/include/klepsydra/core/configuration_properties.h
+++ b/core/modules/core/include/klepsydra/core/configuration_properties.h
@@ -57,6 +57,8 @@ public:
                 return false;
             } else {
                 spdlog::debug("Overwriting old data with new value");
+                it->second = std::make_shared<Property<T>>(propertyValue);
+                return true;
             }
         }
         auto insertionResult = _properties.insert(
-- 
2.43.0


From da5caa25f3a9b026454a2df5b9ceb93c4d42463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:31 +0000
Subject: [PATCH 31/31] fix: merging environments adds the properties of every
 type even if a name is taken

---
 core/modules/core/src/configuration_environment.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/modules/core/src/configuration_environment.cpp b/core/modules/core/src/configuration_environment.cpp
index 7b5ace3..d2829f7 100644
--- a/core/modules/core/src/configuration_environment.cpp
+++ b/core/modules/core/src/configuration_environment.cpp
@@ -144,12 +144,12 @@ bool ConfigurationEnvironment::copyFrom(const ConfigurationEnvironment &otherEnv
                                         const std::string &rootNode)
 {
     bool copyResult = true;
-    copyResult = copyResult &&
-                 _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode);
-    copyResult = copyResult && _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode);
-    copyResult = copyResult && _intProperties.copyFrom(otherEnvironment._intProperties, rootNode);
-    copyResult = copyResult &&
-                 _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode);
+    copyResult = _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode) &&
+                 copyResult;
+    copyResult = _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode) && copyResult;
+    copyResult = _intProperties.copyFrom(otherEnvironment._intProperties, rootNode) && copyResult;
+    copyResult = _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode) &&
+                 copyResult;
     return copyResult;
 }
 
-- 
2.43.0

