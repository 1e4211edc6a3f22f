From 01b14684e1cffb8e29b658ec89ddab3fa5bcbd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 01/48] fix: channel iterator must not terminate when moving an
 element throws

advance(), the constructor, operator++ and begin() were unconditionally
noexcept although pop() may throw; make them conditional.
---
 include/dice/template-library/channel.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index d5b685e..55195a7 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -225,12 +225,14 @@ namespace dice::template_library {
             channel_type *chan_;
             mutable std::optional<value_type> buf_; ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept {
+            static constexpr bool nothrow_advance = std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>;
+
+            void advance() noexcept(nothrow_advance) {
                 buf_ = chan_->pop();
             }
 
         public:
-            explicit iterator(channel_type *chan) noexcept : chan_{chan} {
+            explicit iterator(channel_type *chan) noexcept(nothrow_advance) : chan_{chan} {
                 advance();
             }
 
@@ -277,12 +279,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept {
+            iterator &operator++() noexcept(nothrow_advance) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept {
+            void operator++(int) noexcept(nothrow_advance) {
                 advance();
             }
 
@@ -297,7 +299,7 @@ namespace dice::template_library {
          * @return an iterator over all present and future elements of this channel
          * @note iterator == end() is true once the channel is closed
          */
-        [[nodiscard]] iterator begin() noexcept {
+        [[nodiscard]] iterator begin() noexcept(std::is_nothrow_constructible_v<iterator, channel *>) {
             return iterator{this};
         }
 
-- 
2.43.0


From 1f91b03dbe914327607722e9d86ebab1b45e80dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 02/48] fix: channel must not lose an element when moving it
 out throws

pop() and try_pop() moved the front element into a temporary, removed it
from the queue and then moved it a second time into the returned
optional (and a third time into the iterator's buffer); a throw from any
but the first move lost the element. Construct the result in place before
removing the element.
---
 include/dice/template-library/channel.hpp | 31 ++++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index 55195a7..2a7892b 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -177,33 +177,50 @@ namespace dice::template_library {
          * @return std::nullopt if the channel was closed, an element otherwise
          */
         [[nodiscard]] std::optional<value_type> pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret;
+            pop_into(ret);
+            return ret;
+        }
+
+    private:
+        /**
+         * Implementation of pop(), constructs the element directly in ret.
+         * If moving the element throws, ret is empty and the element is still in the queue.
+         */
+        void pop_into(std::optional<value_type> &ret) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            ret.reset();
+
             std::unique_lock lock{queue_mutex_};
             queue_not_empty_.wait(lock, [this]() noexcept { return !queue_.empty() || closed_.test(std::memory_order_relaxed); });
 
             if (queue_.empty()) [[unlikely]] {
                 // implies closed_ == true
-                return std::nullopt;
+                return;
             }
 
-            auto ret = std::move(queue_.front());
+            ret.emplace(std::move(queue_.front()));
             queue_.pop_front();
 
 			lock.unlock();
             queue_not_full_.notify_one();
-            return ret;
         }
 
+    public:
+
         /**
          * Try to get a (previously pushed) element from the channel.
          * Unlike pop(), if there is no element available, returns std::nullopt immediatly.
          */
         [[nodiscard]] std::optional<value_type> try_pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret;
+
             std::unique_lock lock{queue_mutex_};
             if (queue_.empty()) {
-                return std::nullopt;
+                return ret;
             }
 
-            auto ret = std::move(queue_.front());
+            // move straight into the result: if that throws the element is still in the queue
+            ret.emplace(std::move(queue_.front()));
             queue_.pop_front();
 
             lock.unlock();
@@ -225,10 +242,10 @@ namespace dice::template_library {
             channel_type *chan_;
             mutable std::optional<value_type> buf_; ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            static constexpr bool nothrow_advance = std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>;
+            static constexpr bool nothrow_advance = std::is_nothrow_move_constructible_v<value_type>;
 
             void advance() noexcept(nothrow_advance) {
-                buf_ = chan_->pop();
+                chan_->pop_into(buf_);
             }
 
         public:
-- 
2.43.0


From 2d414fddfe2fb349c71533dfeab9ef196be7003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 03/48] fix: channel must not swallow a wakeup when an
 operation throws

A blocked emplace()/pop() that is woken by notify_one() and then fails with
an exception (element constructor, allocation) leaves the free slot or the
element in place but consumed the notification, so another waiter could
block forever. Pass the notification on.
---
 include/dice/template-library/channel.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index 2a7892b..1147ba7 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -9,6 +9,8 @@
 #include <mutex>
 #include <optional>
 
+#include <dice/template-library/defer.hpp>
+
 namespace dice::template_library {
 
 	/**
@@ -97,6 +99,10 @@ namespace dice::template_library {
                     return false;
                 }
 
+                // this call may have consumed a notification: if construction throws, the capacity is still there for somebody else
+                DICE_DEFER_TO_FAIL {
+                    queue_not_full_.notify_one();
+                };
                 queue_.emplace_back(std::forward<Args>(args)...);
             }
 
@@ -198,6 +204,10 @@ namespace dice::template_library {
                 return;
             }
 
+            // this call may have consumed a notification: if the move throws, the element is still there for somebody else
+            DICE_DEFER_TO_FAIL {
+                queue_not_empty_.notify_one();
+            };
             ret.emplace(std::move(queue_.front()));
             queue_.pop_front();
 
-- 
2.43.0


From a85275137ad4e3018fda40a3c706efa7039a2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 04/48] fix: exchange_channel must not lose the element or a
 wakeup when moving it out throws

pop() and try_pop() moved the element twice (three times for the iterator)
and cleared the slot in between, so a throw from a later move lost it; a
throw from the first move left it in place but swallowed the notification
another waiter needed.
---
 .../template-library/exchange_channel.hpp     | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index a6d75ed..e4fa18a 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -11,6 +11,8 @@
 #include <type_traits>
 #include <utility>
 
+#include <dice/template-library/defer.hpp>
+
 namespace dice::template_library {
 
     /**
@@ -122,6 +124,19 @@ namespace dice::template_library {
          * @return std::nullopt if the channel was closed, an element otherwise
          */
         [[nodiscard]] std::optional<value_type> pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret;
+            pop_into(ret);
+            return ret;
+        }
+
+    private:
+        /**
+         * Implementation of pop(), constructs the element directly in ret.
+         * If moving the element throws, ret is empty and the element is still in the channel.
+         */
+        void pop_into(std::optional<value_type> &ret) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            ret.reset();
+
             std::unique_lock lock{value_mutex_};
             has_value_.wait(lock, [this]() noexcept {
                 return value_.has_value() || closed_.test(std::memory_order_relaxed);
@@ -129,23 +144,35 @@ namespace dice::template_library {
 
             if (!value_.has_value()) [[unlikely]] {
                 // implies closed_ == true
-                return std::nullopt;
+                return;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            // this call may have consumed a notification: if the move throws, the element is still there for somebody else
+            DICE_DEFER_TO_FAIL {
+                has_value_.notify_one();
+            };
+            ret.emplace(std::move(*value_));
+            value_.reset();
         }
 
+    public:
+
         /**
          * Try to get a (previously pushed) element from the channel.
          * Unlike pop(), if there is no element available, returns std::nullopt immediatly.
          */
         [[nodiscard]] std::optional<value_type> try_pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret;
+
             std::unique_lock lock{value_mutex_};
             if (!value_.has_value()) {
-                return std::nullopt;
+                return ret;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            // move straight into the result: if that throws the element is still in the channel
+            ret.emplace(std::move(*value_));
+            value_.reset();
+            return ret;
         }
 
         struct iterator {
@@ -163,7 +190,7 @@ namespace dice::template_library {
             mutable std::optional<value_type> buf_;  ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
             void advance() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
-                buf_ = chan_->pop();
+                chan_->pop_into(buf_);
             }
 
         public:
-- 
2.43.0


From 994f28cc929376fdcfe672d927297a392d0cdbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 05/48] fix: exchange_channel must keep the current element
 when constructing its replacement throws

---
 include/dice/template-library/exchange_channel.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index e4fa18a..f451a26 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -90,7 +90,13 @@ namespace dice::template_library {
                     return false;
                 }
 
-                value_.emplace(std::forward<Args>(args)...);
+                if constexpr (std::is_nothrow_constructible_v<value_type, decltype(std::forward<Args>(args))...>) {
+                    value_.emplace(std::forward<Args>(args)...);
+                } else {
+                    // construct the replacement first: if that throws the current element must stay available
+                    value_type replacement(std::forward<Args>(args)...);
+                    value_.emplace(std::move(replacement));
+                }
             }
 
             has_value_.notify_one();
-- 
2.43.0


From ab3b28820cc637c9e62980c5631129d0f6ec0d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 06/48] fix: mutex and shared_mutex must lock through their own
 Mutex type

---
 include/dice/template-library/mutex.hpp        |  8 ++++----
 include/dice/template-library/shared_mutex.hpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 39746f0..6b3cc7b 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -108,8 +108,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] mutex_guard<value_type> lock() {
-            return mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] mutex_guard<value_type, mutex_type> lock() {
+            return mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -119,13 +119,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return mutex_guard<value_type>{std::move(lock), value_};
+            return mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
     };
 
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 52b43cd..414dab0 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -110,8 +110,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type> lock() {
-            return shared_mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type, mutex_type> lock() {
+            return shared_mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -121,13 +121,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type>{std::move(lock), value_};
+            return shared_mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
 
         /**
@@ -137,8 +137,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type const> lock_shared() const {
-            return shared_mutex_guard<value_type const>{std::shared_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type const, mutex_type> lock_shared() const {
+            return shared_mutex_guard<value_type const, mutex_type>{std::shared_lock<mutex_type>{mutex_}, value_};
         }
 
         /**
@@ -148,13 +148,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type const>> try_lock_shared() const {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type const, mutex_type>> try_lock_shared() const {
             std::shared_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type const>{std::move(lock), value_};
+            return shared_mutex_guard<value_type const, mutex_type>{std::move(lock), value_};
         }
     };
 
-- 
2.43.0


From f7d824e54efcb410464cd85d3b5a520a26894403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 07/48] fix: mutex_guard and shared_mutex_guard must be
 swappable

---
 include/dice/template-library/mutex.hpp        | 2 +-
 include/dice/template-library/shared_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 6b3cc7b..22c7498 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -54,7 +54,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(mutex_guard const &lhs, mutex_guard const &rhs) noexcept {
+        friend void swap(mutex_guard &lhs, mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 414dab0..1be577f 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -56,7 +56,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(shared_mutex_guard const &lhs, shared_mutex_guard const &rhs) noexcept {
+        friend void swap(shared_mutex_guard &lhs, shared_mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
-- 
2.43.0


From 2607f206db05e117122f1ed43936cd054f8153f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 08/48] fix: moving a limit_allocator must leave the source
 usable

---
 .../dice/template-library/limit_allocator.hpp   | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index e836280..fb873ac 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -108,10 +108,21 @@ namespace dice::template_library {
               inner_{} {
         }
 
-		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+
+		// note: moving must not take the control block away, a moved-from allocator (e.g. the one of a moved-from container) stays usable
+		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>)
+			: control_block_{other.control_block_},
+			  inner_{std::move(other.inner_)} {
+		}
+
 		constexpr limit_allocator &operator=(limit_allocator const &other) noexcept(std::is_nothrow_copy_assignable_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) {
+			control_block_ = other.control_block_;
+			inner_ = std::move(other.inner_);
+			return *this;
+		}
+
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-- 
2.43.0


From 5b31d1564503ee303b6a016d28bff5b3827bdcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 09/48] fix: limit_allocator must be rebindable with every
 syncness

---
 include/dice/template-library/limit_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index fb873ac..6544da1 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -126,7 +126,7 @@ namespace dice::template_library {
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-		constexpr limit_allocator(limit_allocator<U, Allocator> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator>::upstream_allocator_type const &>)
+		constexpr limit_allocator(limit_allocator<U, Allocator, syncness> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator, syncness>::upstream_allocator_type const &>)
 			: control_block_{other.control_block_},
 			  inner_{other.inner_} {
 		}
-- 
2.43.0


From 6d95bdb198c453485fa1d606c2a0e60b6fc756ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:22 +0000
Subject: [PATCH 10/48] fix: pool must hand out suitably aligned blocks for
 every bucket size

---
 include/dice/template-library/pool_allocator.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 65afc3f..a0c1a18 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -42,6 +42,12 @@ namespace dice::template_library {
 
 		std::array<pool_type, sizeof...(bucket_sizes)> pools_;
 
+		// the chunks of a bucket are adjacent, each of them must be suitably aligned for any object that fits
+		static constexpr size_t chunk_size(size_t bucket_size) noexcept {
+			constexpr size_t align = alignof(std::max_align_t);
+			return bucket_size < align ? bucket_size : (bucket_size + align - 1) / align * align;
+		}
+
 		template<size_t ix, size_t bucket_size, size_t ...rest>
 		void *allocate_impl(size_t n_bytes) {
 			if (n_bytes <= bucket_size) {
@@ -80,7 +86,7 @@ namespace dice::template_library {
 		}
 
 	public:
-		pool() : pools_{pool_type{bucket_sizes}...} {
+		pool() : pools_{pool_type{chunk_size(bucket_sizes)}...} {
 		}
 
 		// underlying implementation does not support copying/moving
-- 
2.43.0


From 22522b6d5dc2ec3f9d73b4100f7005fd1bed6774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:22 +0000
Subject: [PATCH 11/48] fix: pool_allocator must refuse allocations whose size
 overflows

---
 include/dice/template-library/pool_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index a0c1a18..c7640d1 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <type_traits>
 #include <memory>
+#include <new>
 
 namespace dice::template_library {
 
@@ -182,6 +183,10 @@ namespace dice::template_library {
 		}
 
 		pointer allocate(size_t n) {
+			if (n > static_cast<size_t>(-1) / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
+
 			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
 		}
 
-- 
2.43.0


From 60f6bd2f1a3409e37220bc871cf8c3882bfe3a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:22 +0000
Subject: [PATCH 12/48] fix: moving a pool_allocator must leave the source
 usable

---
 include/dice/template-library/pool_allocator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index c7640d1..0e69af2 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -167,10 +167,9 @@ namespace dice::template_library {
 			: pool_{std::move(underlying_pool)} {
 		}
 
+		// note: intentionally not movable, a moved-from allocator (e.g. of a moved-from container) must stay usable
 		pool_allocator(pool_allocator const &other) noexcept = default;
-		pool_allocator(pool_allocator &&other) noexcept = default;
 		pool_allocator &operator=(pool_allocator const &other) noexcept = default;
-		pool_allocator &operator=(pool_allocator &&other) noexcept = default;
 		~pool_allocator() noexcept = default;
 
 		template<typename U>
-- 
2.43.0


From 80e530b6ed6eb8d6e2a86d2d1f8ba4fce288ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:41 +0000
Subject: [PATCH 13/48] fix: copying a static_string must ask the allocator
 which allocator to use

---
 include/dice/template-library/static_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c05fa48..7afc6d3 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -72,7 +72,7 @@ namespace dice::template_library {
             std::memcpy(std::to_address(data_), sv.data(), size_);
         }
 
-        basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
+        basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), std::allocator_traits<allocator_type>::select_on_container_copy_construction(other.alloc_)} {
         }
 
         basic_static_string &operator=(basic_static_string const &other) {
-- 
2.43.0


From 6f3b9f7fc5fe2901eb4bb35fd8bf1db5ec61cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 14/48] fix: static_string copy assignment must give the old
 text back to the allocator it came from

---
 include/dice/template-library/static_string.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index 7afc6d3..0770ee7 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -81,10 +81,13 @@ namespace dice::template_library {
             }
 
             if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
-                alloc_ = other.alloc_;
+                // the old text belongs to the old allocator
+                basic_static_string copy{static_cast<view_type>(other), other.alloc_};
+                swap(*this, copy);
+            } else {
+                copy_assign_from_other(other);
             }
 
-            copy_assign_from_other(other);
             return *this;
         }
 
-- 
2.43.0


From 3a8fb2147564d6195cf7c7a9032b8959103aca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 15/48] fix: static_string assignment must keep the string
 valid when the allocation fails

---
 include/dice/template-library/static_string.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index 0770ee7..f13d04f 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -41,18 +41,8 @@ namespace dice::template_library {
         }
 
         void copy_assign_from_other(basic_static_string const &other) {
-            if (size_ != 0) {
-                std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
-            }
-
-            size_ = other.size_;
-
-            if (size_ != 0) {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_);
-            } else {
-                data_ = nullptr;
-            }
+            basic_static_string copy{static_cast<view_type>(other), alloc_};
+            swap_data(*this, copy);
         }
 
     public:
-- 
2.43.0


From 32b8665111b63dfdfb45c75c110d766fe677fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 16/48] fix: static_string must copy whole characters, not only
 as many bytes

---
 include/dice/template-library/static_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index f13d04f..f66b8fb 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -59,7 +59,7 @@ namespace dice::template_library {
             }
 
             data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-            std::memcpy(std::to_address(data_), sv.data(), size_);
+            std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(Char));
         }
 
         basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), std::allocator_traits<allocator_type>::select_on_container_copy_construction(other.alloc_)} {
-- 
2.43.0


From 70a8eff3ecb9fd4e08b9f35c85ace4599f179e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:15 +0000
Subject: [PATCH 17/48] fix: flex_array must not terminate when creating or
 copying elements fails

---
 include/dice/template-library/flex_array.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index e7ebfcd..497d05d 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -277,11 +277,11 @@ namespace dice::template_library {
 		inner_type inner_;
 
 	public:
-		constexpr flex_array() noexcept = default;
-		constexpr flex_array(flex_array const &) noexcept = default;
-		constexpr flex_array(flex_array &&) noexcept = default;
-		constexpr flex_array &operator=(flex_array const &) noexcept = default;
-		constexpr flex_array &operator=(flex_array &&) noexcept = default;
+		constexpr flex_array() = default;
+		constexpr flex_array(flex_array const &) = default;
+		constexpr flex_array(flex_array &&) = default;
+		constexpr flex_array &operator=(flex_array const &) = default;
+		constexpr flex_array &operator=(flex_array &&) = default;
 		constexpr ~flex_array() noexcept = default;
 
 		/**
@@ -364,7 +364,7 @@ namespace dice::template_library {
 		 * Converts from a flex_array of static extent to a flex_array of dynamic extent
 		 */
 		template<size_t other_extent>
-		constexpr flex_array(flex_array<value_type, other_extent> const &other) noexcept requires (has_dynamic_extent && other_extent != dynamic_extent) {
+		constexpr flex_array(flex_array<value_type, other_extent> const &other) requires (has_dynamic_extent && other_extent != dynamic_extent) {
 			static_assert(other_extent <= max_extent, "extent of other is too large for this flex_array");
 
 			inner_.set_size(other.size());
@@ -414,7 +414,7 @@ namespace dice::template_library {
 
 		constexpr auto operator<=>(flex_array const &other) const noexcept = default;
 
-		friend constexpr void swap(flex_array &lhs, flex_array &rhs) noexcept {
+		friend constexpr void swap(flex_array &lhs, flex_array &rhs) noexcept(std::is_nothrow_swappable_v<inner_type>) {
 			std::swap(lhs.inner_, rhs.inner_);
 		}
 	};
-- 
2.43.0


From ad27a2debdfce13e743c2edb9b85dc2c4b2b7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:27 +0000
Subject: [PATCH 18/48] fix: variant2 assignment must not bypass the
 constructors and destructors of its alternatives

---
 include/dice/template-library/variant2.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9f672f8..86ecb64 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -327,14 +327,18 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 const &other) noexcept
-            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>)
+            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>
+                      && std::is_trivially_copy_constructible_v<T> && std::is_trivially_copy_constructible_v<U>
+                      && std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 const &other) noexcept(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                                   && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<U>
                                                   && std::is_nothrow_destructible_v<U> && std::is_nothrow_copy_constructible_v<U>)
-            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>)
+            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>
+                      || !std::is_trivially_copy_constructible_v<T> || !std::is_trivially_copy_constructible_v<U>
+                      || !std::is_trivially_destructible_v<T> || !std::is_trivially_destructible_v<U>)
         {
             if (this == &other) [[unlikely]] {
                 return *this;
@@ -418,14 +422,18 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 &&other) noexcept
-            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>)
+            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>
+                      && std::is_trivially_move_constructible_v<T> && std::is_trivially_move_constructible_v<U>
+                      && std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 &&other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                              && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<U>
                                              && std::is_nothrow_destructible_v<U> && std::is_nothrow_move_constructible_v<U>)
-            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>)
+            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>
+                      || !std::is_trivially_move_constructible_v<T> || !std::is_trivially_move_constructible_v<U>
+                      || !std::is_trivially_destructible_v<T> || !std::is_trivially_destructible_v<U>)
         {
             assert(this != &other);
 
-- 
2.43.0


From 09eff2748e9615615b2650b44cea9f65ce50fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:59 +0000
Subject: [PATCH 19/48] fix: hashing a valueless variant2 must not terminate

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 86ecb64..19f924d 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -41,6 +41,10 @@ namespace std {
     template<typename T, typename U>
     struct hash<::dice::template_library::variant2<T, U>> {
         [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const noexcept {
+            if (var.valueless_by_exception()) {
+                return hash<size_t>{}(variant_npos);
+            }
+
             return visit([]<typename X>(X const &x) noexcept {
                 // this is as far as I can tell what std::variant does
                 if constexpr (std::is_same_v<X, T>) {
-- 
2.43.0


From 85ff88b17b9d7a834ece20cd2b89c8abec988a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:28 +0000
Subject: [PATCH 20/48] fix: constructing a variant2 from an rvalue must not
 terminate when the move fails

---
 include/dice/template-library/variant2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 19f924d..5d84869 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -265,7 +265,7 @@ namespace dice::template_library {
             new (&a_) T{value};
         }
 
-        constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
             new (&a_) T{std::move(value)};
         }
@@ -275,7 +275,7 @@ namespace dice::template_library {
             new (&b_) U{value};
         }
 
-        constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
+        constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
             new (&b_) U{std::move(value)};
         }
-- 
2.43.0


From d1d0b9889f5dd8a3056c456891db5a4cf914e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 21/48] fix: assigning an inplace_polymorphic of trivially
 destructible types must not fail

---
 include/dice/template-library/inplace_polymorphic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index d354c6c..3303d46 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -77,7 +77,7 @@ namespace dice::template_library {
 
 		void drop() noexcept {
 			if constexpr ((std::is_trivially_destructible_v<Ts> && ...)) {
-				// noop
+				valueless_ = true;
 			} else {
 				if (!valueless_) {
 					(**this).~Base();
-- 
2.43.0


From 250c5ae24b36e575d7d16cd48b295673c9c614a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:38 +0000
Subject: [PATCH 22/48] fix: a sandbox whose output cannot be flushed must not
 continue as a second caller

---
 include/dice/template-library/sandbox.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/sandbox.hpp b/include/dice/template-library/sandbox.hpp
index 4cd4866..03b44d0 100644
--- a/include/dice/template-library/sandbox.hpp
+++ b/include/dice/template-library/sandbox.hpp
@@ -109,7 +109,8 @@ namespace dice::template_library {
                 int const exit_code = invoke_like_main(std::move(func));
 
                 // flush again, to avoid loosing output if the function does not abort
-                flush_all_streams();
+                // the noexcept is important: an exception must not leave the child process
+                []() noexcept { flush_all_streams(); }();
 
                 // ensure no destructors can run even if func does not abort
                 _exit(exit_code);
-- 
2.43.0


From f451eb2173c4c6782ad2c7cc97d16b1ba78de6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:21 +0000
Subject: [PATCH 23/48] fix: copying an integral_template_variant must not
 terminate when the copy fails

---
 include/dice/template-library/integral_template_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index fdbe8ee..ae7fe98 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -62,7 +62,7 @@ namespace dice::template_library {
 
 	public:
 		constexpr integral_template_variant() noexcept(std::is_nothrow_default_constructible_v<underlying_type>) = default;
-		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_copy_constructible_v<underlying_type>) = default;
+		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_nothrow_copy_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant(integral_template_variant &&other) noexcept(std::is_nothrow_move_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant const &other) noexcept(std::is_nothrow_copy_assignable_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_assignable_v<underlying_type>) = default;
-- 
2.43.0


From 586f3f5d0f4452d82a101f87feb847a391e1be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 24/48] fix: limit_allocator must be copyable in containers for
 every upstream allocator

---
 include/dice/template-library/limit_allocator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 6544da1..7ded767 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -96,7 +96,6 @@ namespace dice::template_library {
 		[[no_unique_address]] upstream_allocator_type inner_;
 
 		constexpr limit_allocator(std::shared_ptr<control_block_type> const &control_block, upstream_allocator_type const &alloc)
-                requires (std::is_default_constructible_v<upstream_allocator_type>)
             : control_block_{control_block},
               inner_{alloc} {
         }
-- 
2.43.0


From 6a1cedced518fa927a2f523cc5eb803d79b6ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 25/48] fix: fmt_join must accept strings as separators

---
 include/dice/template-library/fmt_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 6d79999..fa03ed5 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -68,7 +68,7 @@ namespace std {
 			while (it != end) {
 				// format separator
 				if constexpr (std::ranges::range<Sep const &>) {
-					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()));
+					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From 53ef06da25317de19a388c8ee0c30fbc7d941c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:32 +0000
Subject: [PATCH 26/48] fix: operator<< for formattable types must report
 failing output and use the formatter of the stream's character type

---
 include/dice/template-library/format_to_ostream.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 01e6e98..def85bc 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,7 +47,14 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    typename std::basic_ostream<Char, CharTraits>::sentry const ready{stream};
+    if (ready) {
+        static constexpr Char fmt[] = {Char('{'), Char('}'), Char()};
+
+        if (std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, fmt, value).failed()) {
+            stream.setstate(std::ios_base::badbit);
+        }
+    }
     return stream;
 }
 
-- 
2.43.0


From 916edd2f90f5ee765056809522918c2b1b3904a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:30 +0000
Subject: [PATCH 27/48] fix: next_to_view::crbegin() needs next_back() only, as
 rbegin() and crend() do

---
 include/dice/template-library/next_to_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 38ed862..f1eb233 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -471,7 +471,7 @@ namespace dice::template_library {
 			return next_back_to_reverse_iter<Iter>{iter_};
 		}
 
-		[[nodiscard]] constexpr auto crbegin() const requires (nth_back_iterator<Iter>) {
+		[[nodiscard]] constexpr auto crbegin() const requires (next_back_iterator<Iter>) {
 			return rbegin();
 		}
 
-- 
2.43.0


From 3b5ab0bf1d7bd7ac97f701aa355e00546c0bee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 28/48] fix: range(): right elements in reverse and near the
 limits of the integer type

---
 include/dice/template-library/ranges.hpp | 56 +++++++++++++++---------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 1c94625..02a06f3 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -4,6 +4,7 @@
 #include <dice/template-library/next_to_range.hpp>
 
 #include <algorithm>
+#include <cstdint>
 #include <functional>
 #include <ranges>
 #include <set>
@@ -353,6 +354,23 @@ namespace dice::template_library {
 			T stop_;
 			S step_;
 
+			[[nodiscard]] constexpr uintmax_t distance() const noexcept {
+				return current_ <= stop_ ? static_cast<uintmax_t>(stop_) - static_cast<uintmax_t>(current_)
+										 : static_cast<uintmax_t>(current_) - static_cast<uintmax_t>(stop_);
+			}
+
+			[[nodiscard]] constexpr uintmax_t stride() const noexcept {
+				return step_ < S{} ? uintmax_t{0} - static_cast<uintmax_t>(step_) : static_cast<uintmax_t>(step_);
+			}
+
+			/**
+			 * @return value of the element off steps after current_, off must be less than remaining()
+			 * @note calculates modulo 2^64, because intermediate results may not be representable in T
+			 */
+			[[nodiscard]] constexpr T element_at(size_t off) const noexcept {
+				return static_cast<T>(static_cast<uintmax_t>(current_) + static_cast<uintmax_t>(off) * static_cast<uintmax_t>(step_));
+			}
+
 		public:
             range_iterator() noexcept
                     requires (std::is_default_constructible_v<T> && std::is_constructible_v<S, int>)
@@ -379,7 +397,12 @@ namespace dice::template_library {
 					}
 				}
 
-				return std::exchange(current_, current_ + step_);
+				if constexpr (std::integral<T> && std::integral<S>) {
+					// never step past stop_, that might wrap around
+					return std::exchange(current_, distance() <= stride() ? stop_ : element_at(1));
+				} else {
+					return std::exchange(current_, current_ + step_);
+				}
 			}
 
             [[nodiscard]] constexpr size_t remaining() const noexcept
@@ -391,17 +414,15 @@ namespace dice::template_library {
 						// wrong direction
 						return 0;
 					}
-
-					return static_cast<size_t>((stop_ - current_ + step_ - 1) / step_);
 				} else {
 					// backward
 					if (step_ > S{}) {
 						// wrong direction
 						return 0;
 					}
-
-					return static_cast<size_t>((current_ - stop_ + -step_ - 1) / -step_);
 				}
+
+				return static_cast<size_t>(distance() / stride() + (distance() % stride() != 0));
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth(size_t off) noexcept
@@ -413,26 +434,21 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				current_ += static_cast<T>(off) * step_;
+				current_ = element_at(off);
 				return next();
 			}
 
             [[nodiscard]] constexpr std::optional<T> next_back() noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (step_ > S{}) {
-					if (current_ >= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				} else {
-					if (current_ <= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
+				auto const rem = remaining();
+				if (rem == 0) {
+					return std::nullopt;
 				}
+
+				// stop_ is not necessarily a whole number of steps away from the last element
+				stop_ = element_at(rem - 1);
+				return stop_;
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth_back(size_t off) noexcept
@@ -444,8 +460,8 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				stop_ -= static_cast<T>(off) * step_;
-				return next_back();
+				stop_ = element_at(rem - off - 1);
+				return stop_;
 			}
 		};
 	}// namespace ranges_algo_detail
-- 
2.43.0


From 3915823e10c99972a87fb98470a9736ee85e5bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 29/48] fix: copying a next_to_iter from a non-const lvalue by
 direct initialization skipped an element

---
 include/dice/template-library/next_to_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index f1eb233..4c26404 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -131,7 +131,8 @@ namespace dice::template_library {
 		public:
             template<typename... Args>
             explicit constexpr next_to_iter_impl(Args &&...args)
-                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
+                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>
+                              && !(std::derived_from<std::remove_cvref_t<Args>, next_to_iter_impl> || ...))
                 : Iter{std::forward<Args>(args)...},
                   cur_{next()} {
             }
-- 
2.43.0


From cdcc89750abf59f03322b4807c7d21b7028dbcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:07 +0000
Subject: [PATCH 30/48] fix: next_to_iter += n lost a peeked element if the
 source failed

---
 include/dice/template-library/next_to_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 4c26404..1bdabcb 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -120,8 +120,8 @@ namespace dice::template_library {
 					if (off == 0) {
 						cur_ = std::exchange(peeked_, std::nullopt);
 					} else {
-						peeked_.reset(); // discard peeked value
 						cur_ = nth(off - 1);
+						peeked_.reset(); // discard peeked value
 					}
 				} else {
 					cur_ = nth(off);
-- 
2.43.0


From 956c22806bcd94170510f9c87f8bbc33133771d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:41 +0000
Subject: [PATCH 31/48] fix: all_equal and is_sorted_unique on single-pass
 ranges and on ranges of proxy references

---
 include/dice/template-library/ranges.hpp | 33 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 02a06f3..6b15561 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -180,11 +180,12 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto const first_element = *first;
+            // not auto, because *first could be a proxy that refers to the current element of first
+            std::iter_value_t<I> const first_element = *first;
             ++first;
 
             // Check if all subsequent elements in the range match the first one.
-            return std::ranges::subrange(first, last)
+            return std::ranges::subrange(std::move(first), std::move(last))
                    | dice::template_library::all_of([&](auto const &current_element) {
                          return std::invoke(pred, current_element, first_element);
                      });
@@ -559,15 +560,27 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto it = first;
-            while (++it != last) {
-                // We require that 'prev' is strictly less than 'curr'.
-                // cmp(a, b) ~ a < b
-                // <-> !cmp(a, b) ~ a >= b
-                if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
-                    return false;
+            // We require that 'prev' is strictly less than 'curr'.
+            // cmp(a, b) ~ a < b
+            // <-> !cmp(a, b) ~ a >= b
+            if constexpr (std::forward_iterator<I>) {
+                auto it = first;
+                while (++it != last) {
+                    if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
+                        return false;
+                    }
+                    first = it;
+                }
+            } else {
+                // a single-pass iterator does not provide access to the previous element anymore
+                std::iter_value_t<I> prev = *first;
+                while (++first != last) {
+                    std::iter_value_t<I> curr = *first;
+                    if (!std::invoke(cmp, std::invoke(proj, prev), std::invoke(proj, curr))) {
+                        return false;
+                    }
+                    prev = std::move(curr);
                 }
-                first = it;
             }
             return true;
         }
-- 
2.43.0


From f39dfb0b89f6edff892c038618d5a1e1fe729f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 32/48] fix: copying a one-element standard_layout_tuple from a
 non-const lvalue did not compile

---
 include/dice/template-library/standard_layout_tuple.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index e0a965e..624395c 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -4,6 +4,7 @@
 #include <dice/template-library/type_list.hpp>
 #include <dice/template-library/type_traits.hpp>
 
+#include <concepts>
 #include <cstddef>
 #include <functional>
 #include <type_traits>
@@ -74,7 +75,8 @@ namespace dice::template_library {
 		constexpr standard_layout_tuple() = default;
 
 		template<typename ...Args>
-		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts))
+		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts)
+																	   && !(sizeof...(Args) == 1 && (std::derived_from<std::remove_cvref_t<Args>, standard_layout_tuple> && ...)))
 			: standard_layout_tuple{individual_construct, std::forward<Args>(args)...}
 		{
 		}
-- 
2.43.0


From ceca8ac6be5f0d9aede6424fb70c23c67f284eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 33/48] fix: standard_layout_tuple turned elements that can be
 made of an initializer_list into a list of themselves

---
 include/dice/template-library/standard_layout_tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index 624395c..2278558 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -83,7 +83,7 @@ namespace dice::template_library {
 
 		template<typename Arg, typename ...Args>
 		explicit constexpr standard_layout_tuple(individual_construct_t, Arg &&first, Args &&...rest) requires (sizeof...(Ts) == sizeof...(Args))
-			: first{std::forward<Arg>(first)},
+			: first(std::forward<Arg>(first)),
 			  rest{std::forward<Args>(rest)...}
 		{
 		}
-- 
2.43.0


From 30ff00cb825d06216be4cc01169cc8effaace387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 34/48] fix: switch_cases and for_values passed integral
 constants of type int for smaller integer types

---
 include/dice/template-library/for.hpp          | 4 ++--
 include/dice/template-library/switch_cases.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 4abfdd8..d3ff6ee 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -41,13 +41,13 @@ namespace dice::template_library {
 	constexpr void for_range(F &&f) {
 		if constexpr (first < last) {
 			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first + xs)...>(std::forward<F>(f));
+				for_values<static_cast<decltype(first)>(first + xs)...>(std::forward<F>(f));
 			};
 
 			impl(std::make_integer_sequence<decltype(first), last - first>{});
 		} else {
 			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first - xs)...>(std::forward<F>(f));
+				for_values<static_cast<decltype(first)>(first - xs)...>(std::forward<F>(f));
 			};
 
 			impl(std::make_integer_sequence<decltype(first), first - last>{});
diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index dbea69e..1cb3a5d 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -14,7 +14,7 @@ namespace dice::template_library {
 		constexpr decltype(auto) execute_case(decltype(i) value, F &&cases_function) {
 			if constexpr (i < ((max == min) ? max : max - 1)) {
 				if (value != i) {
-					return execute_case<i + 1, max, min>(value, std::forward<F>(cases_function));
+					return execute_case<static_cast<decltype(i)>(i + 1), max, min>(value, std::forward<F>(cases_function));
 				}
 			}
 
-- 
2.43.0


From 4f5d19522201ac4843226d80ed348c9cc453bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 35/48] fix: switch_cases without default instantiated the
 function with a value outside of the range

---
 include/dice/template-library/switch_cases.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index 1cb3a5d..d230574 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -84,7 +84,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(first) condition, F &&cases_function) {
-		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, first>);
+		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(first, last)>);
 	}
 
 	/**
@@ -121,7 +121,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(last) condition, F &&cases_function) {
-		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, last>);
+		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(decltype(last){}, last)>);
 	}
 
 	/**
-- 
2.43.0


From a2af94937860bd1a21e6970979db6788fc6c88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 36/48] fix: tuple_fold returned a dangling reference for
 lvalue initial values

---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 2c01327..5284a8e 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From 8e909814aee60a72650f22958ac9c29c509320d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 37/48] fix: variant2 initialized alternatives with braces,
 unlike std::variant: copies became lists of themselves, emplace rejected
 narrowing

---
 include/dice/template-library/variant2.hpp | 78 ++++++++++++----------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 5d84869..90f620a 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -199,6 +199,16 @@ namespace dice::template_library {
         };
         discriminant_type discriminant_;
 
+        // as std::variant, i.e. braces must not prefer std::initializer_list constructors or reject narrowing
+        template<typename X, typename ...Args>
+        static constexpr void construct(X *const ptr, Args &&...args) noexcept(std::is_nothrow_constructible_v<X, decltype(std::forward<Args>(args))...>) {
+            if constexpr (std::is_constructible_v<X, decltype(std::forward<Args>(args))...>) {
+                new (ptr) X(std::forward<Args>(args)...);
+            } else {
+                new (ptr) X{std::forward<Args>(args)...};
+            }
+        }
+
     public:
         constexpr variant2() noexcept(std::is_nothrow_default_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
@@ -215,11 +225,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{other.a_};
+                    new (&a_) T(other.a_);
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{other.b_};
+                    new (&b_) U(other.b_);
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -242,11 +252,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{std::move(other.a_)};
+                    new (&a_) T(std::move(other.a_));
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{std::move(other.b_)};
+                    new (&b_) U(std::move(other.b_));
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -262,46 +272,46 @@ namespace dice::template_library {
 
         constexpr variant2(T const &value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{value};
+            new (&a_) T(value);
         }
 
         constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::move(value)};
+            new (&a_) T(std::move(value));
         }
 
         constexpr variant2(U const &value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{value};
+            new (&b_) U(value);
         }
 
         constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::move(value)};
+            new (&b_) U(std::move(value));
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<T>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            construct(&a_, std::forward<Args>(args)...);
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<U>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            construct(&b_, std::forward<Args>(args)...);
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<0>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            construct(&a_, std::forward<Args>(args)...);
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<1>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            construct(&b_, std::forward<Args>(args)...);
         }
 
         constexpr ~variant2() noexcept requires (std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
@@ -357,7 +367,7 @@ namespace dice::template_library {
                         }
                         case discriminant_type::Second: {
                             a_.~T();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U{other.b_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -375,7 +385,7 @@ namespace dice::template_library {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
                             b_.~U();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T{other.a_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
                             break;
                         }
                         case discriminant_type::Second: {
@@ -396,11 +406,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{other.a_};
+                            new (&a_) T(other.a_);
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{other.b_};
+                            new (&b_) U(other.b_);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -451,7 +461,7 @@ namespace dice::template_library {
                         case discriminant_type::Second: {
                             a_.~T();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                                new (&b_) U{std::move(other.b_)};
+                                new (&b_) U(std::move(other.b_));
                             });
                             break;
                         }
@@ -471,7 +481,7 @@ namespace dice::template_library {
                         case discriminant_type::First: {
                             b_.~U();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                                new (&a_) T{std::move(other.a_)};
+                                new (&a_) T(std::move(other.a_));
                             });
                             break;
                         }
@@ -493,11 +503,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{std::move(other.a_)};
+                            new (&a_) T(std::move(other.a_));
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{std::move(other.b_)};
+                            new (&b_) U(std::move(other.b_));
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -534,13 +544,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
-                        new (&a_) T{value};
+                        new (&a_) T(value);
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{value};
+                    new (&a_) T(value);
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -565,13 +575,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                        new (&a_) T{std::move(value)};
+                        new (&a_) T(std::move(value));
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{std::move(value)};
+                    new (&a_) T(std::move(value));
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -591,7 +601,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
-                        new (&b_) U{value};
+                        new (&b_) U(value);
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -601,7 +611,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{value};
+                    new (&b_) U(value);
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -620,7 +630,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                        new (&b_) U{std::move(value)};
+                        new (&b_) U(std::move(value));
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -630,7 +640,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{std::move(value)};
+                    new (&b_) U(std::move(value));
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -665,17 +675,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            construct(&a_, std::forward<Args>(args)...);
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            construct(&a_, std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::First;
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&a_) T{std::forward<Args>(args)...};
+                            construct(&a_, std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::First;
                             break;
                         }
@@ -690,17 +700,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            construct(&b_, std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            construct(&b_, std::forward<Args>(args)...);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&b_) U{std::forward<Args>(args)...};
+                            construct(&b_, std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
-- 
2.43.0


From dbad1df6b227453651847c3edcb1292eea25ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 38/48] fix: mutex and shared_mutex turned values that can be
 made of an initializer_list into a list of themselves

---
 include/dice/template-library/mutex.hpp        | 4 ++--
 include/dice/template-library/shared_mutex.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 22c7498..18aeb24 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -89,11 +89,11 @@ namespace dice::template_library {
         mutex &operator=(mutex &&other) = delete;
 
         explicit constexpr mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
-            : value_{value} {
+            : value_(value) {
         }
 
         explicit constexpr mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type>)
-            : value_{std::move(value)} {
+            : value_(std::move(value)) {
         }
 
         template<typename ...Args>
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 1be577f..e2fee3b 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -91,11 +91,11 @@ namespace dice::template_library {
         shared_mutex &operator=(shared_mutex &&other) = delete;
 
         explicit constexpr shared_mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
-            : value_{value} {
+            : value_(value) {
         }
 
         explicit constexpr shared_mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type>)
-            : value_{std::move(value)} {
+            : value_(std::move(value)) {
         }
 
         template<typename ...Args>
-- 
2.43.0


From c95b1fdfc9fbf09d47c7cf4565ab5d58afb82f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 39/48] fix: inplace_polymorphic initialized with braces
 although its noexcept specification and documentation name a constructor call

---
 include/dice/template-library/inplace_polymorphic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index 3303d46..f8adfcf 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -140,7 +140,7 @@ namespace dice::template_library {
 			static_assert((std::is_same_v<T, Ts> || ...), "Given type is not in list of possible types");
 
 			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY((std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>), {
-				new (&storage_) T{std::forward<Args>(args)...};
+				new (&storage_) T(std::forward<Args>(args)...);
 			});
 		}
 
@@ -226,7 +226,7 @@ namespace dice::template_library {
 			drop();
 
 			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY((std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>), {
-				new (&storage_) T{std::forward<Args>(args)...};
+				new (&storage_) T(std::forward<Args>(args)...);
 			});
 		}
 
-- 
2.43.0


From 530bff2455e021286faaf74cadd038b58a2583f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:12 +0000
Subject: [PATCH 40/48] fix: channel iterator assignment may construct
 elements, noexcept must account for it

---
 include/dice/template-library/channel.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index 1147ba7..0dbc287 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -268,7 +268,8 @@ namespace dice::template_library {
                   buf_{other.buf_} {
             }
 
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
+            // note: assigning or swapping the buffers may also construct an element, so value_type being nothrow assignable or swappable is not enough
+            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<std::optional<value_type>>) {
                 if (this == &other) {
                     return *this;
                 }
@@ -283,7 +284,7 @@ namespace dice::template_library {
                   buf_{std::move(other.buf_)} {
             }
 
-            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<value_type>) {
+            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<std::optional<value_type>>) {
                 assert(this != &other);
                 std::swap(chan_, other.chan_);
                 std::swap(buf_, other.buf_);
-- 
2.43.0


From e35a92df805a9efa9cb03d4035d355cbe739b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:12 +0000
Subject: [PATCH 41/48] fix: exchange_channel iterator assignment may construct
 elements, noexcept must account for it

---
 include/dice/template-library/exchange_channel.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index f451a26..bddfc41 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -210,7 +210,8 @@ namespace dice::template_library {
                   buf_{other.buf_} {
             }
 
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
+            // note: assigning or swapping the buffers may also construct an element, so value_type being nothrow assignable or swappable is not enough
+            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<std::optional<value_type>>) {
                 if (this == &other) {
                     return *this;
                 }
@@ -225,7 +226,7 @@ namespace dice::template_library {
                   buf_{std::move(other.buf_)} {
             }
 
-            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<value_type>) {
+            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<std::optional<value_type>>) {
                 assert(this != &other);
                 std::swap(chan_, other.chan_);
                 std::swap(buf_, other.buf_);
-- 
2.43.0


From a1e14e57b38f5d34356b6932d26b14c1394e575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:21 +0000
Subject: [PATCH 42/48] fix: integral_template_variant of alternatives that are
 not comparable must be usable

---
 include/dice/template-library/integral_template_variant.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index ae7fe98..c0d0a6d 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -129,7 +129,10 @@ namespace dice::template_library {
 		}
 
 		constexpr auto operator<=>(integral_template_variant const &other) const noexcept = default;
-		constexpr bool operator==(integral_template_variant const &other) const noexcept = default;
+		// note: not defaulted, a defaulted one is instantiated together with the class, the alternatives don't have to be comparable
+		constexpr bool operator==(integral_template_variant const &other) const noexcept {
+			return repr_ == other.repr_;
+		}
 	};
 
 }// namespace dice::template_library
-- 
2.43.0


From f7c3acd9d566404e290d3793c47b9cecf56280d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:36 +0000
Subject: [PATCH 43/48] fix: constructors of mutex declared noexcept although
 constructing the mutex type may fail

---
 include/dice/template-library/mutex.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 18aeb24..6ab31eb 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -80,7 +80,7 @@ namespace dice::template_library {
         mutex_type mutex_;
 
     public:
-        constexpr mutex() noexcept(std::is_nothrow_default_constructible_v<value_type>) = default;
+        constexpr mutex() noexcept(std::is_nothrow_default_constructible_v<value_type> && std::is_nothrow_default_constructible_v<mutex_type>) = default;
         constexpr ~mutex() noexcept(std::is_nothrow_destructible_v<value_type>) = default;
 
         mutex(mutex const &other) = delete;
@@ -88,16 +88,16 @@ namespace dice::template_library {
         mutex &operator=(mutex const &other) = delete;
         mutex &operator=(mutex &&other) = delete;
 
-        explicit constexpr mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
+        explicit constexpr mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type> && std::is_nothrow_default_constructible_v<mutex_type>)
             : value_(value) {
         }
 
-        explicit constexpr mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type>)
+        explicit constexpr mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_default_constructible_v<mutex_type>)
             : value_(std::move(value)) {
         }
 
         template<typename ...Args>
-        explicit constexpr mutex(std::in_place_t, Args &&...args) noexcept(std::is_nothrow_constructible_v<value_type, decltype(std::forward<Args>(args))...>)
+        explicit constexpr mutex(std::in_place_t, Args &&...args) noexcept(std::is_nothrow_constructible_v<value_type, decltype(std::forward<Args>(args))...> && std::is_nothrow_default_constructible_v<mutex_type>)
             : value_{std::forward<Args>(args)...} {
         }
 
-- 
2.43.0


From 13b314a5dc71a6feff82ed6a2ab9e5a97fc6a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:36 +0000
Subject: [PATCH 44/48] fix: constructors of shared_mutex declared noexcept
 although constructing the mutex type may fail

---
 include/dice/template-library/shared_mutex.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index e2fee3b..b71a79b 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -82,7 +82,7 @@ namespace dice::template_library {
         mutable mutex_type mutex_;
 
     public:
-        constexpr shared_mutex() noexcept(std::is_nothrow_default_constructible_v<value_type>) = default;
+        constexpr shared_mutex() noexcept(std::is_nothrow_default_constructible_v<value_type> && std::is_nothrow_default_constructible_v<mutex_type>) = default;
         constexpr ~shared_mutex() noexcept(std::is_nothrow_destructible_v<value_type>) = default;
 
         shared_mutex(shared_mutex const &other) = delete;
@@ -90,16 +90,16 @@ namespace dice::template_library {
         shared_mutex &operator=(shared_mutex const &other) = delete;
         shared_mutex &operator=(shared_mutex &&other) = delete;
 
-        explicit constexpr shared_mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
+        explicit constexpr shared_mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type> && std::is_nothrow_default_constructible_v<mutex_type>)
             : value_(value) {
         }
 
-        explicit constexpr shared_mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type>)
+        explicit constexpr shared_mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_default_constructible_v<mutex_type>)
             : value_(std::move(value)) {
         }
 
         template<typename ...Args>
-        explicit constexpr shared_mutex(std::in_place_t, Args &&...args) noexcept(std::is_nothrow_constructible_v<value_type, decltype(std::forward<Args>(args))...>)
+        explicit constexpr shared_mutex(std::in_place_t, Args &&...args) noexcept(std::is_nothrow_constructible_v<value_type, decltype(std::forward<Args>(args))...> && std::is_nothrow_default_constructible_v<mutex_type>)
             : value_{std::forward<Args>(args)...} {
         }
 
-- 
2.43.0


From 3dfc0156859caee90e4b5f187f63c5bdf4a26d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:36 +0000
Subject: [PATCH 45/48] fix: noexcept of for_values must be that of the calls
 it makes

---
 include/dice/template-library/for.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index d3ff6ee..431bb0d 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -24,7 +24,7 @@ namespace dice::template_library {
 	 * @param f The lambda
 	 */
 	template<auto ...xs, typename F>
-	constexpr void for_values(F &&f) noexcept((std::is_nothrow_invocable_v<F, std::integral_constant<decltype(xs), xs>> && ...)) {
+	constexpr void for_values(F &&f) noexcept((std::is_nothrow_invocable_v<F &, std::integral_constant<decltype(xs), xs>> && ...)) {
 		(std::invoke(f, std::integral_constant<decltype(xs), xs>{}), ...);
 	}
 
-- 
2.43.0


From 566184e9df45195ed0656adcd0421f85f82703b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:05 +0000
Subject: [PATCH 46/48] fix: sandbox did not flush clog and the wide streams,
 which have their own buffers

---
 include/dice/template-library/sandbox.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/sandbox.hpp b/include/dice/template-library/sandbox.hpp
index 03b44d0..d9269f0 100644
--- a/include/dice/template-library/sandbox.hpp
+++ b/include/dice/template-library/sandbox.hpp
@@ -65,6 +65,10 @@ namespace dice::template_library {
             // was ever called they have their own buffers
             std::cout.flush();
             std::cerr.flush();
+            std::clog.flush();
+            std::wcout.flush();
+            std::wcerr.flush();
+            std::wclog.flush();
 
             fflush(nullptr);
 
-- 
2.43.0


From 843f511861a75d1048a5cb86495f7a253dc72acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:05 +0000
Subject: [PATCH 47/48] fix: for_range over a range with more values than its
 type can count did not compile

---
 include/dice/template-library/for.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 431bb0d..06cd28f 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -1,6 +1,7 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FOR_HPP
 #define DICE_TEMPLATE_LIBRARY_FOR_HPP
 
+#include <cstddef>
 #include <functional>
 #include <type_traits>
 #include <utility>
@@ -40,17 +41,18 @@ namespace dice::template_library {
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr void for_range(F &&f) {
 		if constexpr (first < last) {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<static_cast<decltype(first)>(first + xs)...>(std::forward<F>(f));
+			// note: counting in size_t, the number of values does not have to fit into the type of the values
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<decltype(first)>(static_cast<size_t>(first) + xs)...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), last - first>{});
+			impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<static_cast<decltype(first)>(first - xs)...>(std::forward<F>(f));
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<decltype(first)>(static_cast<size_t>(first) - xs)...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), first - last>{});
+			impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}
 }// namespace dice::template_library
-- 
2.43.0


From fc61cd175c9ef0d5d4c0e7c324d2be7c679d05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:05 +0000
Subject: [PATCH 48/48] fix: integer sequences with more values than their type
 can count did not compile

---
 include/dice/template-library/integral_sequence.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/integral_sequence.hpp b/include/dice/template-library/integral_sequence.hpp
index 6b8fda7..2f74e7e 100644
--- a/include/dice/template-library/integral_sequence.hpp
+++ b/include/dice/template-library/integral_sequence.hpp
@@ -28,16 +28,17 @@ namespace dice::template_library {
 			return std::integer_sequence<Int>{};
 		} else if constexpr (first < last) {
 			// Ascending [first, last)
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first + xs)...>{};
+			// note: counting in size_t, the number of values does not have to fit into Int
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(static_cast<size_t>(first) + xs)...>{};
 			};
-			return impl(std::make_integer_sequence<Int, last - first>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
 			// Descending (last, first]
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first - xs)...>{};
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(static_cast<size_t>(first) - xs)...>{};
 			};
-			return impl(std::make_integer_sequence<Int, first - last>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}());
 
-- 
2.43.0

