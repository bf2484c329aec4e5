From 81bbc1077fe17dc6ee0814040d502dfae21d0478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 01/15] fix: worker_init reports a failure to construct the
 worker's stack

The catch-all destroyed the context but swallowed the exception, hence a
thread without a context or stack was marked as an initialized worker.
---
 include/libfork/core/ext/tls.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libfork/core/ext/tls.hpp b/include/libfork/core/ext/tls.hpp
index eaae831..b1b4937 100644
--- a/include/libfork/core/ext/tls.hpp
+++ b/include/libfork/core/ext/tls.hpp
@@ -111,6 +111,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
-- 
2.43.0


From 62e01fa7e7e6739d4f0a01ff96caf4361828cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 02/15] fix: destroy a task that could not be scheduled on the
 stack it lives on

If the scheduler's schedule() threw then the coroutine was deallocated from
the fresh stack left by release() and its own stack was leaked.
---
 include/libfork/core/sync_wait.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/libfork/core/sync_wait.hpp b/include/libfork/core/sync_wait.hpp
index 5784057..bf04a17 100644
--- a/include/libfork/core/sync_wait.hpp
+++ b/include/libfork/core/sync_wait.hpp
@@ -273,13 +273,19 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   await->set_root_sem(&share_state->sem);
 
   // If this throws then `await` will clean up the coroutine.
-  impl::ignore_t{} = impl::tls::thread_stack->release();
+  impl::stack::stacklet *stacklet = impl::tls::thread_stack->release();
 
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
-  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up. This
+  // must happen on the stack that the coroutine was allocated on, so take that stack back.
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    *impl::tls::thread_stack = impl::stack{stacklet};
+    LF_RETHROW;
+  }
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
-- 
2.43.0


From cda825109e2f4e8714eb9a76fc52d72b4e827b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 03/15] fix: eager and sync dispatch rethrow if the child's
 exception is in the parent

The condition was inverted: calls and sync forks checked for an exception only
if the child stashed its exception in its return slot.
---
 include/libfork/core/impl/awaitables.hpp | 2 +-
 include/libfork/core/impl/promise.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index a7859b1..446f97e 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -281,7 +281,7 @@ struct fork_awaitable : std::suspend_always {
  * @brief An awaiter identical to `fork_awaitable` but with an additional boolean indicating if the child
  * completed synchronously.
  *
- * @tparam ChildThrows If `true` then the child captures it's exceptions in it's result.
+ * @tparam ChildThrows If `true` then the child does not capture it's exceptions in it's result.
  * @tparam R Where the fork statement is located.
  */
 template <bool ChildThrows, region R>
diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 0d0fb30..7cc10d1 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -214,7 +214,7 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
-- 
2.43.0


From 8ec98621bf1beed62b7e68f8eb90a246d106c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 04/15] fix: moved-from pools can be destroyed and running
 pools assigned to

The destructor of a moved-from pool dereferenced a null pointer and the
defaulted move assignment destroyed joinable threads.
---
 include/libfork/schedule/busy_pool.hpp | 13 ++++++++++++-
 include/libfork/schedule/lazy_pool.hpp | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/libfork/schedule/busy_pool.hpp b/include/libfork/schedule/busy_pool.hpp
index df1d676..ffd446c 100644
--- a/include/libfork/schedule/busy_pool.hpp
+++ b/include/libfork/schedule/busy_pool.hpp
@@ -145,7 +145,14 @@ class busy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;
+  auto operator=(busy_pool &&other) noexcept -> busy_pool & {
+    if (this != &other) {
+      // The workers of this pool must be stopped before their threads are replaced.
+      std::destroy_at(this);
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The busy pool is not copy assignable.
    */
@@ -199,6 +206,10 @@ class busy_pool {
   auto contexts() noexcept -> std::span<worker_context *> { return m_contexts; }
 
   ~busy_pool() noexcept {
+    if (!m_share) {
+      return; // Moved from.
+    }
+
     LF_LOG("Requesting a stop");
     // Set conditions for workers to stop
     m_share->stop.test_and_set(std::memory_order_release);
diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index ef43035..01f6709 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -312,7 +312,14 @@ class lazy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & = default;
+  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & {
+    if (this != &other) {
+      // The workers of this pool must be stopped before their threads are replaced.
+      std::destroy_at(this);
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The lazy pool is not copy assignable.
    */
@@ -379,6 +386,10 @@ class lazy_pool {
    * @brief Destroy the lazy pool object, stops all workers.
    */
   ~lazy_pool() noexcept {
+    if (!m_share) {
+      return; // Moved from.
+    }
+
     LF_LOG("Requesting a stop");
 
     // Set conditions for workers to stop.
-- 
2.43.0


From a28045af03c844209edd9bcc42d5829f5f5be5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 05/15] fix: deque::push publishes a grown buffer with release
 semantics

A thief may load an old bottom and then the new buffer pointer, without a
release on the pointer the initialisation of the buffer races with the thief's use.
---
 include/libfork/core/ext/deque.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 89a488b..dcac74d 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -392,7 +392,9 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    // Release so that a thief which loads the new buffer sees it fully constructed, this cannot rely
+    // on the publication of bottom below as the thief may have loaded an older bottom.
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
-- 
2.43.0


From 341776a684b206ed807eaa76088ac9118c02b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 06/15] fix: order the lazy pool's going-to-sleep and
 becoming-active decisions

A worker going to sleep decrements the thief count and then reads the active
count; a worker that becomes active increments the active count and then reads
the thief count. With acquire/release orders only (store buffering) both can
read the old value: the pool is active, nobody searches and nobody is woken.
---
 include/libfork/schedule/lazy_pool.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index 01f6709..dcef36c 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -56,6 +56,10 @@ static constexpr std::memory_order acq_rel = std::memory_order_acq_rel;
  * @brief Alias to the `std` version.
  */
 static constexpr std::memory_order release = std::memory_order_release;
+/**
+ * @brief Alias to the `std` version.
+ */
+static constexpr std::memory_order seq_cst = std::memory_order_seq_cst;
 
 /**
  * @brief A collection of heap allocated atomic variables used for tracking the state of the scheduler.
@@ -116,11 +120,13 @@ struct lazy_vars : busy_vars {
     // A <- A + 1
     // Si <- Si - 1
 
-    // If we are the first active then we need to maintain the invariant across all numa domains.
+    // If we are the first active then we need to maintain the invariant across all numa domains. A worker
+    // going to sleep decrements T and then reads A, we increment A and then read T: these must be seq_cst
+    // such that at least one of us sees the other.
 
-    if (active.fetch_add(1, acq_rel) == 0) {
+    if (active.fetch_add(1, seq_cst) == 0) {
       for (auto &&domain : numa) {
-        if (domain.thief.load(acquire) == 0) {
+        if (domain.thief.load(seq_cst) == 0) {
           domain.notifier.notify_one();
         }
       }
@@ -259,11 +265,11 @@ wake_up:
    * This maintains invariant in numa.
    */
 
-  if (my_numa_vars.thief.fetch_sub(1, acq_rel) == 1) {
+  if (my_numa_vars.thief.fetch_sub(1, seq_cst) == 1) {
 
     // If we are the last thief then invariant may be broken if A > 0 as S > 0 (because we are asleep).
 
-    if (my_context->shared().active.load(acquire) > 0) {
+    if (my_context->shared().active.load(seq_cst) > 0) {
       // Restore the invariant if A > 0 by immediately waking self.
       my_numa_vars.notifier.cancel_wait();
       goto wake_up;
-- 
2.43.0


From 0c39317d2dd8a234dfd87ce09e80784ee22f47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 07/15] fix: worker_context construction allocates and must be
 able to fail

The constructors of worker_context/full_context allocate the task deque but
were declared noexcept, so running out of memory in worker_init terminated
the program instead of reporting the failure.
---
 include/libfork/core/ext/context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/context.hpp b/include/libfork/core/ext/context.hpp
index de43258..d729fb9 100644
--- a/include/libfork/core/ext/context.hpp
+++ b/include/libfork/core/ext/context.hpp
@@ -98,7 +98,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -128,7 +128,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
-- 
2.43.0


From e21e0dc3b5cef43db29e7f8d38cbcdd09f241a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 08/15] fix: co_new rejects element counts whose size in bytes
 wraps around

---
 include/libfork/core/impl/awaitables.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index 446f97e..b441e6d 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -12,9 +12,12 @@
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
+#include <cstddef>     // for ptrdiff_t, size_t
 #include <cstdint>     // for uint16_t
 #include <iterator>    // for iter_difference_t
+#include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
+#include <new>         // for bad_array_new_length
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
@@ -194,6 +197,11 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
+    // The size in bytes must not wrap around.
+    if (constexpr std::size_t max = std::numeric_limits<std::ptrdiff_t>::max(); request.count > max / sizeof(T)) {
+      LF_THROW(std::bad_array_new_length{});
+    }
+
     T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
 
     using int_t = std::iter_difference_t<T *>;
-- 
2.43.0


From 91c9397dd3714f76eba7e008c276032ca357d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 09/15] fix: first_arg_t call operators declare noexcept for
 the overload they invoke

---
 include/libfork/core/first_arg.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libfork/core/first_arg.hpp b/include/libfork/core/first_arg.hpp
index 608c8fe..cec5706 100644
--- a/include/libfork/core/first_arg.hpp
+++ b/include/libfork/core/first_arg.hpp
@@ -201,7 +201,7 @@ class first_arg_t {
    */
   template <typename... Args>
     requires std::invocable<F const &, Args...>
-  auto operator()(Args &&...args) const & noexcept(std::is_nothrow_invocable_v<F &, Args...>)
+  auto operator()(Args &&...args) const & noexcept(std::is_nothrow_invocable_v<F const &, Args...>)
       -> std::invoke_result_t<F const &, Args...> {
     return std::invoke(m_fun, std::forward<Args>(args)...);
   }
@@ -211,7 +211,7 @@ class first_arg_t {
    */
   template <typename... Args>
     requires std::invocable<F &&, Args...>
-  auto operator()(Args &&...args) && noexcept(std::is_nothrow_invocable_v<F &, Args...>)
+  auto operator()(Args &&...args) && noexcept(std::is_nothrow_invocable_v<F &&, Args...>)
       -> std::invoke_result_t<F &&, Args...> {
     return std::invoke(std::move(m_fun), std::forward<Args>(args)...);
   }
@@ -221,7 +221,7 @@ class first_arg_t {
    */
   template <typename... Args>
     requires std::invocable<F const &&, Args...>
-  auto operator()(Args &&...args) const && noexcept(std::is_nothrow_invocable_v<F &, Args...>)
+  auto operator()(Args &&...args) const && noexcept(std::is_nothrow_invocable_v<F const &&, Args...>)
       -> std::invoke_result_t<F const &&, Args...> {
     return std::invoke(std::move(m_fun), std::forward<Args>(args)...);
   }
-- 
2.43.0


From 2f5ce683d911a2cc9491765f07d7262160a6d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 10/15] fix: for_each_elem declares noexcept for the call it
 makes

---
 include/libfork/core/ext/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libfork/core/ext/list.hpp b/include/libfork/core/ext/list.hpp
index 07304a2..bad5d78 100644
--- a/include/libfork/core/ext/list.hpp
+++ b/include/libfork/core/ext/list.hpp
@@ -55,7 +55,7 @@ class intrusive_list : impl::immovable<intrusive_list<T>> {
      * This is a noop if `root` is `nullptr`.
      */
     template <std::invocable<T &> F>
-    friend constexpr void for_each_elem(node *root, F &&func) noexcept(std::is_nothrow_invocable_v<F, T &>) {
+    friend constexpr void for_each_elem(node *root, F &&func) noexcept(std::is_nothrow_invocable_v<F &, T &>) {
       while (root) {
         // Have to be very careful here, we can't deference `root` after
         // we've called `func` as `func` could destroy the node so, we have
-- 
2.43.0


From cb84de9749bf85edacfb24143bf3ad6e26cc9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 11/15] fix: deque::pop may throw if converting the item to the
 result may throw

---
 include/libfork/core/ext/deque.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index dcac74d..3014724 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -315,7 +315,9 @@ class deque : impl::immovable<deque<T>> {
    */
   template <std::invocable F = return_nullopt<T>>
     requires std::convertible_to<T, std::invoke_result_t<F>>
-  constexpr auto pop(F &&when_empty = {}) noexcept(std::is_nothrow_invocable_v<F>) -> std::invoke_result_t<F>;
+  constexpr auto pop(F &&when_empty = {}) noexcept(
+      std::is_nothrow_invocable_v<F> && std::is_nothrow_convertible_v<T, std::invoke_result_t<F>>)
+      -> std::invoke_result_t<F>;
 
   /**
    * @brief Steal an item from the deque.
@@ -409,7 +411,9 @@ template <dequeable T>
 template <std::invocable F>
   requires std::convertible_to<T, std::invoke_result_t<F>>
 constexpr auto
-deque<T>::pop(F &&when_empty) noexcept(std::is_nothrow_invocable_v<F>) -> std::invoke_result_t<F> {
+deque<T>::pop(F &&when_empty) noexcept(
+    std::is_nothrow_invocable_v<F> && std::is_nothrow_convertible_v<T, std::invoke_result_t<F>>)
+    -> std::invoke_result_t<F> {
 
   std::ptrdiff_t const bottom = m_bottom.load(relaxed) - 1; //
   impl::atomic_ring_buf<T> *buf = m_buf.load(relaxed);      //
-- 
2.43.0


From 18f3f2a134839825a772bc137df029a47843022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 12/15] fix: result handles with throwing moves or default
 construction do not terminate

---
 include/libfork/core/impl/promise.hpp | 7 +++++--
 include/libfork/core/impl/return.hpp  | 9 +++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 7cc10d1..987f74c 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -277,7 +277,9 @@ struct promise : promise_base, return_result<R, I> {
    * @brief Construct a new promise object, delegate to main constructor.
    */
   template <typename This, first_arg Arg, typename... Args>
-  promise(This const & /*unused*/, Arg const &arg, Args const &.../*unused*/) noexcept : promise(arg) {}
+  promise(This const & /*unused*/, Arg const &arg, Args const &.../*unused*/) noexcept(
+      std::is_nothrow_default_constructible_v<I>)
+      : promise(arg) {}
 
   /**
    * @brief Construct a new promise object.
@@ -286,7 +288,8 @@ struct promise : promise_base, return_result<R, I> {
    * and stores a pointer to the top fibril. Also sets the first argument's frame pointer.
    */
   template <first_arg Arg, typename... Args>
-  explicit promise(Arg const &arg, Args const &.../*unused*/) noexcept
+  explicit promise(Arg const &arg, Args const &.../*unused*/) noexcept(
+      std::is_nothrow_default_constructible_v<I>)
       : promise_base{std::coroutine_handle<promise>::from_promise(*this), tls::stack()->top()} {
     unsafe_set_frame(arg, this);
   }
diff --git a/include/libfork/core/impl/return.hpp b/include/libfork/core/impl/return.hpp
index fbdee1f..7b2b8f2 100644
--- a/include/libfork/core/impl/return.hpp
+++ b/include/libfork/core/impl/return.hpp
@@ -9,9 +9,10 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <concepts> // for convertible_to
-#include <iterator> // for indirectly_writable
-#include <utility>  // for forward
+#include <concepts>    // for convertible_to
+#include <iterator>    // for indirectly_writable
+#include <type_traits> // for is_nothrow_move_assignable_v
+#include <utility>     // for forward
 
 #include "libfork/core/exceptions.hpp"    // for stash_exception_in_return
 #include "libfork/core/first_arg.hpp"     // for quasi_pointer
@@ -36,7 +37,7 @@ class return_result_base {
   /**
    * @brief Set the return pointer.
    */
-  void set_return(I &&ret) noexcept { this->m_ret = std::move(ret); }
+  void set_return(I &&ret) noexcept(std::is_nothrow_move_assignable_v<I>) { this->m_ret = std::move(ret); }
 
   /**
    * @brief Get a reference to the return pointer.
-- 
2.43.0


From 985966c382e3b6ee77f299b9d5bbda8d8136ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 13/15] fix: reject forks that bind a reference parameter to a
 converted temporary

---
 include/libfork/core/impl/promise.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 987f74c..9f5efc8 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -394,17 +394,37 @@ template <typename From, typename To>
 struct safe_fork_t<From, To> : std::true_type {};
 
 /**
- * @brief l-value references are safe.
+ * @brief Check if binding the reference `To` to a `From` would bind it to a temporary.
+ *
+ * For example, binding an `int const &` to a `long &` or a `std::string const &` to a string literal.
+ */
+template <typename From, typename To>
+consteval auto binds_to_temporary() -> bool {
+#ifdef __has_builtin
+  #if __has_builtin(__reference_converts_from_temporary)
+  return __reference_converts_from_temporary(To, From);
+  #elif __has_builtin(__reference_binds_to_temporary)
+  return __reference_binds_to_temporary(To, From);
+  #else
+  return false;
+  #endif
+#else
+  return false;
+#endif
+}
+
+/**
+ * @brief l-value references are safe, unless they bind to a temporary.
  */
 template <typename From, typename To>
-  requires std::convertible_to<From &, To &>
+  requires std::convertible_to<From &, To &> && (!binds_to_temporary<From &, To &>())
 struct safe_fork_t<From &, To &> : std::true_type {};
 
 /**
  * @brief Const promotion of l-value references is safe.
  */
 template <typename From, typename To>
-  requires std::convertible_to<From &, To &>
+  requires std::convertible_to<From &, To &> && (!binds_to_temporary<From &, To const &>())
 struct safe_fork_t<From &, To const &> : std::true_type {};
 
 /**
-- 
2.43.0


From d508dd4bc69a02f52323851db6b2cddd1ea9a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 14/15] fix: resume_on works with any scheduler

---
 include/libfork/core/scheduler.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/libfork/core/scheduler.hpp b/include/libfork/core/scheduler.hpp
index 1f9bc4a..681f92d 100644
--- a/include/libfork/core/scheduler.hpp
+++ b/include/libfork/core/scheduler.hpp
@@ -66,7 +66,7 @@ struct resume_on_quasi_awaitable;
  */
 template <scheduler Sch>
 auto resume_on(Sch *dest) noexcept -> resume_on_quasi_awaitable<Sch> {
-  return resume_on_quasi_awaitable<Sch>{non_null(dest)};
+  return resume_on_quasi_awaitable<Sch>{impl::non_null(dest)};
 }
 
 /**
@@ -77,7 +77,7 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
  private:
   Sch *m_dest;
 
-  explicit resume_on_quasi_awaitable(worker_context *dest) noexcept : m_dest{dest} {}
+  explicit resume_on_quasi_awaitable(Sch *dest) noexcept : m_dest{dest} {}
 
   friend auto resume_on<Sch>(Sch *dest) noexcept -> resume_on_quasi_awaitable;
 
@@ -85,7 +85,13 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
   /**
    * @brief Don't suspend if on correct context.
    */
-  auto await_ready() const noexcept { return impl::tls::context() == m_dest; }
+  auto await_ready() const noexcept -> bool {
+    if constexpr (std::convertible_to<Sch *, worker_context *>) {
+      return impl::tls::context() == m_dest;
+    } else {
+      return false; // Other schedulers decide where to run the task.
+    }
+  }
 
   /**
    * @brief Reschedule this coroutine onto the requested destination.
-- 
2.43.0


From e37cf36742195f8a5b54df541cab6464b1d5eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 15/15] fix: reject reference results that bind to a converted
 temporary

---
 include/libfork/core/impl/safe_ref.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/libfork/core/impl/safe_ref.hpp b/include/libfork/core/impl/safe_ref.hpp
index 694f96c..b8a7eba 100644
--- a/include/libfork/core/impl/safe_ref.hpp
+++ b/include/libfork/core/impl/safe_ref.hpp
@@ -9,7 +9,7 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <concepts>    // for same_as
+#include <concepts>    // for same_as, convertible_to
 #include <type_traits> // for true_type, false_type
 
 #include "libfork/core/first_arg.hpp" // for referenceable
@@ -34,14 +34,15 @@ struct safe_ref_bind_impl : std::false_type {};
 template <typename T>
 struct safe_ref_bind_impl<T, T> : std::true_type {};
 
-// `T const X` can additionally bind to `T X` without dangling//
+// `T const X` can additionally bind to `T X` (or a class derived from `T`) without dangling. Binding to any
+// other type would convert, and hence bind to a temporary.
 
 template <typename To, typename From>
-  requires (!std::same_as<To const &, From &>)
+  requires (!std::same_as<To const &, From &> && std::convertible_to<From *, To const *>)
 struct safe_ref_bind_impl<To const &, From &> : std::true_type {};
 
 template <typename To, typename From>
-  requires (!std::same_as<To const &&, From &&>)
+  requires (!std::same_as<To const &&, From &&> && std::convertible_to<From *, To const *>)
 struct safe_ref_bind_impl<To const &&, From &&> : std::true_type {};
 
 } // namespace detail
-- 
2.43.0

