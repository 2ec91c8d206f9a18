From 7458525c4c0bf1baa02724f0f825d108553ea2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 01/30] fix: try_lock() must not read the owner after releasing
 the internal lock

All four mutexes compared owner_ with the active context after unlocking the
spinlock and yielding, which races with lock()/unlock() on other threads.
Decide while the spinlock is held.
---
 src/mutex.cpp                 | 3 ++-
 src/recursive_mutex.cpp       | 3 ++-
 src/recursive_timed_mutex.cpp | 3 ++-
 src/timed_mutex.cpp           | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mutex.cpp b/src/mutex.cpp
index 7b06451..968718c 100644
--- a/src/mutex.cpp
+++ b/src/mutex.cpp
@@ -53,10 +53,11 @@ mutex::try_lock() {
     if ( nullptr == owner_) {
         owner_ = active_ctx;
     }
+    const bool locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
diff --git a/src/recursive_mutex.cpp b/src/recursive_mutex.cpp
index 9358066..c60361d 100644
--- a/src/recursive_mutex.cpp
+++ b/src/recursive_mutex.cpp
@@ -49,10 +49,11 @@ recursive_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    const bool locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     context::active()->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 5958c72..3dc86ac 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -72,10 +72,11 @@ recursive_timed_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    const bool locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index d0482c5..8610a9c 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -68,10 +68,11 @@ timed_mutex::try_lock() {
     if ( nullptr == owner_) {
         owner_ = active_ctx;
     }
+    const bool locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
-- 
2.43.0


From b7459c1f766f484675d98a08882aa656392df07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 02/30] fix: a waiter notified in time but resumed late must
 not swallow the notification

wait_queue::suspend_and_wait_until() decided by the clock after the fiber had
been resumed. If the fiber was notified before its deadline but got resumed
after it, the notification was consumed while a timeout was reported: other
waiters of the mutex, condition variable or channel stayed blocked for ever.
---
 include/boost/fiber/waker.hpp | 10 ++++++++++
 src/waker.cpp                 | 26 +++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/boost/fiber/waker.hpp b/include/boost/fiber/waker.hpp
index 7ee8459..d14d53c 100644
--- a/include/boost/fiber/waker.hpp
+++ b/include/boost/fiber/waker.hpp
@@ -40,6 +40,9 @@ public:
 
 
 class BOOST_FIBERS_DECL waker_with_hook : public waker {
+private:
+    bool    notified_{ false };
+
 public:
     explicit waker_with_hook(waker && w)
         : waker{ std::move(w) }
@@ -49,6 +52,13 @@ public:
         return waker_queue_hook_.is_linked();
     }
 
+    // wake up the fiber on behalf of the wait-queue; the lock protecting the wait-queue must be held
+    bool notify() noexcept;
+
+    bool is_notified() const noexcept {
+        return notified_;
+    }
+
     friend bool
     operator==( waker const& lhs, waker const& rhs) noexcept {
         return & lhs == & rhs;
diff --git a/src/waker.cpp b/src/waker.cpp
index 1444dea..0a98c9a 100644
--- a/src/waker.cpp
+++ b/src/waker.cpp
@@ -13,6 +13,19 @@ waker::wake() const noexcept {
     return ctx_->wake(epoch_);
 }
 
+bool
+waker_with_hook::notify() noexcept {
+    // must be set before the fiber is woken up because `this` lives on the stack of that fiber
+    notified_ = true;
+    if ( wake() ) {
+        return true;
+    }
+    // the deadline was reached first; the fiber has to acquire the lock protecting
+    // the wait-queue (held by the caller) before it evaluates the flag
+    notified_ = false;
+    return false;
+}
+
 void
 wait_queue::suspend_and_wait( detail::spinlock_lock & lk, context * active_ctx) {
     waker_with_hook w{ active_ctx->create_waker() };
@@ -40,8 +53,11 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
         if ( w.is_linked()) {
             slist_.remove( w);
         }
+        // the fiber might have been notified in time but resumed after the deadline;
+        // the notification must not get lost
+        const bool notified = w.is_notified();
         lk.unlock();
-        return false;
+        return notified;
     }
     return true;
 }
@@ -49,9 +65,9 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
 void
 wait_queue::notify_one() {
     while ( ! slist_.empty() ) {
-        waker & w = slist_.front();
+        waker_with_hook & w = slist_.front();
         slist_.pop_front();
-        if ( w.wake()) {
+        if ( w.notify()) {
             break;
         }
     }
@@ -60,9 +76,9 @@ wait_queue::notify_one() {
 void
 wait_queue::notify_all() {
     while ( ! slist_.empty() ) {
-        waker & w = slist_.front();
+        waker_with_hook & w = slist_.front();
         slist_.pop_front();
-        w.wake();
+        w.notify();
     }
 }
 
-- 
2.43.0


From 316acb0e9f6058c79aebe2cc1514d1f8d0b92057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 03/30] fix: timed_mutex, recursive_timed_mutex: try to lock
 before checking the deadline

A waiter that had been notified, but got resumed after its deadline, returned
without trying to get the free mutex; the hand-over was lost. It also makes an
attempt with a time point in the past behave as try_lock(), as documented.
---
 src/recursive_timed_mutex.cpp | 6 +++---
 src/timed_mutex.cpp           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 3dc86ac..0ffbbe9 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -22,9 +22,6 @@ namespace fibers {
 bool
 recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         // store this fiber in order to be notified later
         detail::spinlock_lock lk{ wait_queue_splk_ };
@@ -37,6 +34,9 @@ recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point co
             count_ = 1;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index 8610a9c..2a08e94 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -22,15 +22,15 @@ namespace fibers {
 bool
 timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         detail::spinlock_lock lk{ wait_queue_splk_ };
         if ( nullptr == owner_) {
             owner_ = active_ctx;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
-- 
2.43.0


From bc53b9ced4e18003c8a2e11c243fe6caf429170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 04/30] fix: schedule_from_remote() must not access the
 scheduler after publishing the fiber

---
 src/scheduler.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 69ae61c..426a295 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -208,9 +208,13 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // push new context to remote ready-queue
     ctx->remote_ready_link( remote_ready_queue_);
+    // after the lock is released, the owning thread might resume ctx, replace
+    // the algorithm, or terminate and destroy this scheduler:
+    // keep the algorithm alive, do not touch `this` any more
+    algo::algorithm::ptr_t algo{ algo_ };
     lk.unlock();
     // notify scheduler
-    algo_->notify();
+    algo->notify();
 }
 #endif
 
@@ -324,7 +328,11 @@ scheduler::set_algo( algo::algorithm::ptr_t algo) noexcept {
     while ( algo_->has_ready_fibers() ) {
         algo->awakened( algo_->pick_next() );
     }
-    algo_ = std::move( algo);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
+    // other threads access algo_ in schedule_from_remote()
+    detail::spinlock_lock lk{ remote_ready_splk_ };
+#endif
+    algo_.swap( algo);
 }
 
 void
-- 
2.43.0


From 91332ad832ce1c1d4f194da58a9bb8bf66c87231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 05/30] fix: unbuffered_channel: hand over the value and report
 the result under one lock

push() reported closed or timeout although the value had been consumed, pop() and
close() accessed the slot on the stack of a producer that had already returned,
close() left a dangling slot behind, and a timed out push() did not notify the
producers waiting for the slot.
---
 include/boost/fiber/unbuffered_channel.hpp | 304 ++++++++-------------
 1 file changed, 113 insertions(+), 191 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 4b8c807..be40048 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -43,6 +43,8 @@ private:
     struct slot {
         value_type  value;
         waker       w;
+        // protected by splk_consumers_, like the transfer of the value
+        bool        consumed{ false };
 
         slot( value_type const& value_, waker && w) :
             value{ value_ },
@@ -82,18 +84,95 @@ private:
         }
     }
 
-    slot * try_pop_() {
-        slot * nil_slot = nullptr;
+    channel_op_status push_( slot & s) {
+        context * active_ctx = context::active();
         for (;;) {
-            slot * s = slot_.load( std::memory_order_acquire);
-            if ( nullptr != s) {
-                if ( ! slot_.compare_exchange_strong( s, nil_slot, std::memory_order_acq_rel) ) {
-                    continue;}
+            {
+                detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                    return channel_op_status::closed;
+                }
+                s.w = active_ctx->create_waker();
+                if ( try_push_( & s) ) {
+                    waiting_consumers_.notify_one();
+                    // suspend till value has been consumed
+                    active_ctx->suspend( lk);
+                    // resumed, value has been consumed
+                    // or channel was closed before value was consumed
+                    return s.consumed ? channel_op_status::success : channel_op_status::closed;
+                }
+            }
+            detail::spinlock_lock lk{ splk_producers_ };
+            if ( BOOST_UNLIKELY( is_closed() ) ) {
+                return channel_op_status::closed;
+            }
+            if ( is_empty_() ) {
+                continue;
+            }
+            waiting_producers_.suspend_and_wait( lk, active_ctx);
+            // resumed, slot mabye free
+        }
+    }
+
+    channel_op_status push_until_( slot & s, std::chrono::steady_clock::time_point const& timeout_time) {
+        context * active_ctx = context::active();
+        for (;;) {
+            {
+                detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                    return channel_op_status::closed;
+                }
+                s.w = active_ctx->create_waker();
+                if ( try_push_( & s) ) {
+                    waiting_consumers_.notify_one();
+                    // suspend this producer
+                    active_ctx->wait_until( timeout_time, lk, waker( s.w) );
+                    // resumed, might be concurrently consumed or closed
+                    detail::spinlock_lock lk_slot{ splk_consumers_ };
+                    if ( s.consumed) {
+                        // value has been consumed
+                        return channel_op_status::success;
+                    }
+                    if ( & s != slot_.load( std::memory_order_acquire) ) {
+                        // channel was closed before value was consumed
+                        return channel_op_status::closed;
+                    }
+                    // value has not been consumed, clear slot
+                    slot_.store( nullptr, std::memory_order_release);
+                    lk_slot.unlock();
+                    // slot is free
+                    detail::spinlock_lock lk_producers{ splk_producers_ };
+                    waiting_producers_.notify_one();
+                    return channel_op_status::timeout;
+                }
+            }
+            detail::spinlock_lock lk{ splk_producers_ };
+            if ( BOOST_UNLIKELY( is_closed() ) ) {
+                return channel_op_status::closed;
+            }
+            if ( is_empty_() ) {
+                continue;
             }
-            return s;
+            if ( ! waiting_producers_.suspend_and_wait_until( lk, active_ctx, timeout_time) ) {
+                return channel_op_status::timeout;
+            }
+            // resumed, slot maybe free
         }
     }
 
+    // value has been moved out of the slot, splk_consumers_ is still locked by lk
+    // so that the producer can not have left push()
+    void consumed_( detail::spinlock_lock & lk, slot * s) {
+        s->consumed = true;
+        slot_.store( nullptr, std::memory_order_release);
+        // notify context
+        s->w.wake();
+        lk.unlock();
+        // slot is free
+        detail::spinlock_lock lk_producers{ splk_producers_ };
+        waiting_producers_.notify_one();
+    }
+
 public:
     unbuffered_channel() = default;
 
@@ -110,86 +189,33 @@ public:
 
     void close() noexcept {
         // set flag
-        if ( ! closed_.exchange( true, std::memory_order_acquire) ) {
-            // notify current waiting  
-            slot * s = slot_.load( std::memory_order_acquire);
+        if ( ! closed_.exchange( true, std::memory_order_acq_rel) ) {
+            detail::spinlock_lock lk1{ splk_consumers_ };
+            // notify current waiting, the slot must not be used after its producer has been resumed
+            slot * s = slot_.exchange( nullptr, std::memory_order_acq_rel);
             if ( nullptr != s) {
                 // notify context
                 s->w.wake();
             }
-            detail::spinlock_lock lk1{ splk_producers_ };
+            lk1.unlock();
+
+            detail::spinlock_lock lk2{ splk_producers_ };
             waiting_producers_.notify_all();
+            lk2.unlock();
 
-            detail::spinlock_lock lk2{ splk_consumers_ };
+            lk1.lock();
             waiting_consumers_.notify_all();
         }
     }
 
     channel_op_status push( value_type const& value) {
-        context * active_ctx = context::active();
         slot s{ value, {} };
-        for (;;) {
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            s.w = active_ctx->create_waker();
-            if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
-                waiting_consumers_.notify_one();
-                // suspend till value has been consumed
-                active_ctx->suspend( lk);
-                // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
-            }
-            detail::spinlock_lock lk{ splk_producers_ };
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            if ( is_empty_() ) {
-                continue;
-            }
-
-            waiting_producers_.suspend_and_wait( lk, active_ctx);
-            // resumed, slot mabye free
-        }
+        return push_( s);
     }
 
     channel_op_status push( value_type && value) {
-        context * active_ctx = context::active();
         slot s{ std::move( value), {} };
-        for (;;) {
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            s.w = active_ctx->create_waker();
-            if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
-                waiting_consumers_.notify_one();
-                // suspend till value has been consumed
-                active_ctx->suspend( lk);
-                // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
-            }
-            detail::spinlock_lock lk{ splk_producers_ };
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            if ( is_empty_() ) {
-                continue;
-            }
-            waiting_producers_.suspend_and_wait( lk, active_ctx);
-            // resumed, slot mabye free
-        }
+        return push_( s);
     }
 
     template< typename Rep, typename Period >
@@ -209,114 +235,28 @@ public:
     template< typename Clock, typename Duration >
     channel_op_status push_wait_until( value_type const& value,
                                        std::chrono::time_point< Clock, Duration > const& timeout_time_) {
-        context * active_ctx = context::active();
         slot s{ value, {} };
-        std::chrono::steady_clock::time_point timeout_time = detail::convert( timeout_time_);
-        for (;;) {
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            s.w = active_ctx->create_waker();
-            if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
-                waiting_consumers_.notify_one();
-                // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
-                // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
-            }
-            detail::spinlock_lock lk{ splk_producers_ };
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            if ( is_empty_() ) {
-                continue;
-            }
-
-            if (! waiting_producers_.suspend_and_wait_until( lk, active_ctx, timeout_time))
-            {
-                return channel_op_status::timeout;
-            }
-            // resumed, slot maybe free
-        }
+        return push_until_( s, detail::convert( timeout_time_) );
     }
 
     template< typename Clock, typename Duration >
     channel_op_status push_wait_until( value_type && value,
                                        std::chrono::time_point< Clock, Duration > const& timeout_time_) {
-        context * active_ctx = context::active();
         slot s{ std::move( value), {} };
-        std::chrono::steady_clock::time_point timeout_time = detail::convert( timeout_time_);
-        for (;;) {
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            s.w = active_ctx->create_waker();
-            if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
-                waiting_consumers_.notify_one();
-                // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
-                // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
-            }
-            detail::spinlock_lock lk{ splk_producers_ };
-            if ( BOOST_UNLIKELY( is_closed() ) ) {
-                return channel_op_status::closed;
-            }
-            if ( is_empty_() ) {
-                continue;
-            }
-            if (! waiting_producers_.suspend_and_wait_until( lk, active_ctx, timeout_time))
-            {
-                return channel_op_status::timeout;
-            }
-            // resumed, slot maybe free
-        }
+        return push_until_( s, detail::convert( timeout_time_) );
     }
 
     channel_op_status pop( value_type & value) {
         context * active_ctx = context::active();
-        slot * s = nullptr;
         for (;;) {
-            if ( nullptr != ( s = try_pop_() ) ) {
-                {
-                    detail::spinlock_lock lk{ splk_producers_ };
-                    waiting_producers_.notify_one();
-                }
-                value = std::move( s->value);
-                // notify context
-                s->w.wake();
-                return channel_op_status::success;
-            }
             detail::spinlock_lock lk{ splk_consumers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
-            if ( ! is_empty_() ) {
-                continue;
+            if ( slot * s = slot_.load( std::memory_order_acquire) ) {
+                value = std::move( s->value);
+                consumed_( lk, s);
+                return channel_op_status::success;
             }
             waiting_consumers_.suspend_and_wait( lk, active_ctx);
             // resumed, slot mabye set
@@ -325,27 +265,18 @@ public:
 
     value_type value_pop() {
         context * active_ctx = context::active();
-        slot * s = nullptr;
         for (;;) {
-            if ( nullptr != ( s = try_pop_() ) ) {
-                {
-                    detail::spinlock_lock lk{ splk_producers_ };
-                    waiting_producers_.notify_one();
-                }
-                // consume value
-                value_type value = std::move( s->value);
-                // notify context
-                s->w.wake();
-                return std::move( value);
-            }
             detail::spinlock_lock lk{ splk_consumers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 throw fiber_error{
                         std::make_error_code( std::errc::operation_not_permitted),
                         "boost fiber: channel is closed" };
             }
-            if ( ! is_empty_() ) {
-                continue;
+            if ( slot * s = slot_.load( std::memory_order_acquire) ) {
+                // consume value
+                value_type value = std::move( s->value);
+                consumed_( lk, s);
+                return std::move( value);
             }
             waiting_consumers_.suspend_and_wait( lk, active_ctx);
             // resumed, slot mabye set
@@ -363,26 +294,17 @@ public:
     channel_op_status pop_wait_until( value_type & value,
                                       std::chrono::time_point< Clock, Duration > const& timeout_time_) {
         context * active_ctx = context::active();
-        slot * s = nullptr;
         std::chrono::steady_clock::time_point timeout_time = detail::convert( timeout_time_);
         for (;;) {
-            if ( nullptr != ( s = try_pop_() ) ) {
-                {
-                    detail::spinlock_lock lk{ splk_producers_ };
-                    waiting_producers_.notify_one();
-                }
-                // consume value
-                value = std::move( s->value);
-                // notify context
-                s->w.wake();
-                return channel_op_status::success;
-            }
             detail::spinlock_lock lk{ splk_consumers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
-            if ( ! is_empty_() ) {
-                continue;
+            if ( slot * s = slot_.load( std::memory_order_acquire) ) {
+                // consume value
+                value = std::move( s->value);
+                consumed_( lk, s);
+                return channel_op_status::success;
             }
             if ( ! waiting_consumers_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
                 return channel_op_status::timeout;
-- 
2.43.0


From cc09cea08cadee4b44a45ea07411aab3311e9e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 06/30] fix: channel iterators: destroy the value exactly once

operator++ destroyed the current value twice, and the value held by an iterator was
never destroyed if the iteration was left before the end of the channel.
---
 include/boost/fiber/buffered_channel.hpp   | 23 ++++++++++++++++------
 include/boost/fiber/unbuffered_channel.hpp | 23 ++++++++++++++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index 492486d..d58ad33 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -360,14 +360,21 @@ public:
 
         buffered_channel    *   chan_{ nullptr };
         storage_type            storage_;
+        bool                    has_value_{ false };
 
-        void increment_( bool initial = false) {
+        void destroy_() noexcept {
+            if ( has_value_) {
+                has_value_ = false;
+                reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
+            }
+        }
+
+        void increment_() {
             BOOST_ASSERT( nullptr != chan_);
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
+                destroy_();
                 ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                has_value_ = true;
             } catch ( fiber_error const&) {
                 chan_ = nullptr;
             }
@@ -386,15 +393,20 @@ public:
 
         explicit iterator( buffered_channel< T > * chan) noexcept :
             chan_{ chan } {
-            increment_( true);
+            increment_();
         }
 
         iterator( iterator const& other) noexcept :
             chan_{ other.chan_ } {
         }
 
+        ~iterator() {
+            destroy_();
+        }
+
         iterator & operator=( iterator const& other) noexcept {
             if ( BOOST_LIKELY( this != & other) ) {
+                destroy_();
                 chan_ = other.chan_;
             }
             return * this;
@@ -409,7 +421,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index be40048..2c11e33 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -318,14 +318,21 @@ public:
 
         unbuffered_channel  *   chan_{ nullptr };
         storage_type            storage_;
+        bool                    has_value_{ false };
 
-        void increment_( bool initial = false) {
+        void destroy_() noexcept {
+            if ( has_value_) {
+                has_value_ = false;
+                reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
+            }
+        }
+
+        void increment_() {
             BOOST_ASSERT( nullptr != chan_);
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
+                destroy_();
                 ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                has_value_ = true;
             } catch ( fiber_error const&) {
                 chan_ = nullptr;
             }
@@ -344,15 +351,20 @@ public:
 
         explicit iterator( unbuffered_channel< T > * chan) noexcept :
             chan_{ chan } {
-            increment_( true);
+            increment_();
         }
 
         iterator( iterator const& other) noexcept :
             chan_{ other.chan_ } {
         }
 
+        ~iterator() {
+            destroy_();
+        }
+
         iterator & operator=( iterator const& other) noexcept {
             if ( this == & other) return * this;
+            destroy_();
             chan_ = other.chan_;
             return * this;
         }
@@ -366,7 +378,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
-- 
2.43.0


From 2b7b0d18d4510a3eec04c6461f5702c7a0253f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 07/30] fix: packaged_task::reset() abandons the previous
 shared state (broken_promise)

---
 include/boost/fiber/future/packaged_task.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/future/packaged_task.hpp b/include/boost/fiber/future/packaged_task.hpp
index 10cef3c..cfac172 100644
--- a/include/boost/fiber/future/packaged_task.hpp
+++ b/include/boost/fiber/future/packaged_task.hpp
@@ -125,9 +125,12 @@ public:
         if ( BOOST_UNLIKELY( ! valid() ) ) {
             throw packaged_task_uninitialized{};
         }
+        ptr_type task = task_->reset();
+        // tmp abandons the old shared state (stores broken_promise)
         packaged_task tmp;
-        tmp.task_ = task_;
-        task_ = tmp.task_->reset();
+        tmp.obtained_ = obtained_;
+        tmp.task_ = std::move( task_);
+        task_ = std::move( task);
         obtained_ = false;
     }
 };
-- 
2.43.0


From 6986c7e48fd8351c12dd06df150702c7a0fbfac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 08/30] fix: fiber_specific_ptr: no clean-up entry for a null
 pointer

---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 97a45a5..474a495 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -363,7 +363,7 @@ context::set_fss_data( void const * vp,
         } else {
             fss_data_.erase( i);
         }
-    } else {
+    } else if ( nullptr != data) {
         fss_data_.insert(
             std::make_pair(
                 key,
-- 
2.43.0


From 3be8dbebc2634405eab1e4f1de753bfd6ec5b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 09/30] fix: clean up fiber-specific values before the fiber
 counts as terminated

---
 src/context.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 474a495..12fe37b 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -263,6 +263,13 @@ context::suspend_with_cc() noexcept {
 
 boost::context::fiber
 context::terminate() noexcept {
+    // release fiber-specific-data
+    // part of the fiber: done before joining fibers are notified
+    // and without holding the lock, the clean-up might suspend
+    for ( fss_data_t::value_type & data : fss_data_) {
+        data.second.do_cleanup();
+    }
+    fss_data_.clear();
     // protect for concurrent access
     std::unique_lock< detail::spinlock > lk{ splk_ };
     // mark as terminated
@@ -270,11 +277,6 @@ context::terminate() noexcept {
     // notify all waiting fibers
     wait_queue_.notify_all();
     BOOST_ASSERT( wait_queue_.empty() );
-    // release fiber-specific-data
-    for ( fss_data_t::value_type & data : fss_data_) {
-        data.second.do_cleanup();
-    }
-    fss_data_.clear();
     // switch to another context
     return get_scheduler()->terminate( lk, this);
 }
-- 
2.43.0


From 27f5a5c3da73b1dfbdfe3c1d5b5d0789e1c8c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 10/30] fix: time points of other clocks must not expire early

---
 include/boost/fiber/detail/convert.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/convert.hpp b/include/boost/fiber/detail/convert.hpp
index ba3bbbd..0287c9a 100644
--- a/include/boost/fiber/detail/convert.hpp
+++ b/include/boost/fiber/detail/convert.hpp
@@ -31,7 +31,9 @@ std::chrono::steady_clock::time_point convert(
 template< typename Clock, typename Duration >
 std::chrono::steady_clock::time_point convert(
         std::chrono::time_point< Clock, Duration > const& timeout_time) {
-    return std::chrono::steady_clock::now() + ( timeout_time - Clock::now() );
+    // read Clock first: time passing between the two reads must not result in an early timeout
+    auto const timeout_duration = timeout_time - Clock::now();
+    return std::chrono::steady_clock::now() + timeout_duration;
 }
 
 }}}
-- 
2.43.0


From b4efc55957d74d48f052604ee5069ea4bb66103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 11/30] fix: a thread must not shut down while its algorithm
 still holds ready fibers

Algorithms that share fibers between threads (shared_work, work_stealing)
detach a fiber from the worker queue while it is ready, so the dispatcher of
an exiting thread saw an empty worker queue although a fiber it had just put
into the ready queue had not been resumed. The fiber was never run again.
---
 src/scheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 426a295..632700b 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -126,7 +126,9 @@ scheduler::dispatch() noexcept {
         if ( shutdown_) {
             // notify sched-algorithm about termination
             algo_->notify();
-            if ( worker_queue_.empty() ) {
+            // an algorithm that shares its fibers with other threads
+            // detaches ready fibers from the worker-queue
+            if ( worker_queue_.empty() && ! algo_->has_ready_fibers() ) {
                 break;
             }
         }
-- 
2.43.0


From c5f0118b19888ffd41e94a8d2553a89118cd3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 12/30] fix: publish a grown array of context_spmc_queue with
 release semantics

A thief that loads the new array together with the old value of bottom did
not synchronise with the owner, so it read the array's capacity, storage
pointer and slots without happens-before.
---
 include/boost/fiber/detail/context_spmc_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 5f906cf..43c2d11 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -128,7 +128,8 @@ public:
             array * tmp = a->resize( bottom, top);
             old_arrays_.push_back( a);
             std::swap( a, tmp);
-            array_.store( a, std::memory_order_relaxed);
+            // release: a thief might load the new array but the old bottom
+            array_.store( a, std::memory_order_release);
         }
         a->push( bottom, ctx);
         std::atomic_thread_fence( std::memory_order_release);
-- 
2.43.0


From 26f6aa45df2ded7c0bfcf93788314ab037663e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 13/30] fix: context_spmc_queue::steal() must not dereference a
 context it has not taken

Between loading an entry and removing it the owner could pop, resume and
release that context. Keep 'pinned' in the lowest bit of the stored pointer.
---
 .../boost/fiber/detail/context_spmc_queue.hpp | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 43c2d11..6233b2e 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -90,6 +90,24 @@ private:
         }
     };
 
+    // a thief must not dereference a context before it has removed it from the
+    // queue (the owner might have resumed and released it in the meantime),
+    // therefore a pinned context is marked in the lowest bit of its pointer
+    static context * mark( context * ctx) noexcept {
+        return ctx->is_context( type::pinned_context)
+            ? reinterpret_cast< context * >( reinterpret_cast< std::uintptr_t >( ctx) | 1)
+            : ctx;
+    }
+
+    static bool is_marked( context * ctx) noexcept {
+        return 0 != ( reinterpret_cast< std::uintptr_t >( ctx) & 1);
+    }
+
+    static context * unmark( context * ctx) noexcept {
+        return reinterpret_cast< context * >(
+            reinterpret_cast< std::uintptr_t >( ctx) & ~static_cast< std::uintptr_t >( 1) );
+    }
+
     std::atomic< std::size_t >     top_{ 0 };
     std::atomic< std::size_t >     bottom_{ 0 };
     std::atomic< array * >         array_;
@@ -131,7 +149,7 @@ public:
             // release: a thief might load the new array but the old bottom
             array_.store( a, std::memory_order_release);
         }
-        a->push( bottom, ctx);
+        a->push( bottom, mark( ctx) );
         std::atomic_thread_fence( std::memory_order_release);
         bottom_.store( bottom + 1, std::memory_order_relaxed);
     }
@@ -145,7 +163,7 @@ public:
         context * ctx = nullptr;
         if ( top <= bottom) {
             // queue is not empty
-            ctx = a->pop( bottom);
+            ctx = unmark( a->pop( bottom) );
             BOOST_ASSERT( nullptr != ctx);
             if ( top == bottom) {
                 // last element dequeued
@@ -175,7 +193,7 @@ public:
             ctx = a->pop( top);
             BOOST_ASSERT( nullptr != ctx);
             // do not steal pinned context (e.g. main-/dispatcher-context)
-            if ( ctx->is_context( type::pinned_context) ) {
+            if ( is_marked( ctx) ) {
                 return nullptr;
             }
             if ( ! top_.compare_exchange_strong( top, top + 1,
-- 
2.43.0


From 955e4a822de4333094d4994a3a46dea9afb29e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 14/30] fix: futex spinlocks release the lock with release
 semantics

In the uncontended case unlock() was only an acquire operation, so the next
owner did not synchronise with the critical section before it.
---
 include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp | 2 +-
 include/boost/fiber/detail/spinlock_ttas_futex.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 172b2b4..1628a8c 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -125,7 +125,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index f7a2f68..3aefdc1 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -116,7 +116,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
-- 
2.43.0


From d5d98774cd97d10dafa1c2acf97108cd55768edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 15/30] fix: release the stack if copying a fiber's function or
 arguments throws

---
 include/boost/fiber/context.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 82d8484..469f610 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -499,15 +499,21 @@ static intrusive_ptr< context > make_worker_context_with_properties( launch poli
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     const std::size_t size = reinterpret_cast< uintptr_t >( storage) - reinterpret_cast< uintptr_t >( stack_bottom);
-    // placement new of context on top of fiber's stack
-    return intrusive_ptr< context >{ 
-            new ( storage) context_t{
-                policy,
-                properties,
-                boost::context::preallocated{ storage, size, sctx },
-                std::forward< StackAlloc >( salloc),
-                std::forward< Fn >( fn),
-                std::forward< Arg >( arg) ... } };
+    try {
+        // placement new of context on top of fiber's stack
+        return intrusive_ptr< context >{ 
+                new ( storage) context_t{
+                    policy,
+                    properties,
+                    boost::context::preallocated{ storage, size, sctx },
+                    std::forward< StackAlloc >( salloc),
+                    std::forward< Fn >( fn),
+                    std::forward< Arg >( arg) ... } };
+    } catch (...) {
+        // copying/moving the function or an argument failed
+        salloc.deallocate( sctx);
+        throw;
+    }
 }
 
 template< typename StackAlloc, typename Fn, typename ... Arg >
-- 
2.43.0


From ea163edd5beb425a54c791aaae8a604dc3073553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 16/30] fix: begin() of a channel must report exceptions of the
 value's move constructor

---
 include/boost/fiber/buffered_channel.hpp   | 2 +-
 include/boost/fiber/unbuffered_channel.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index d58ad33..983447d 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -391,7 +391,7 @@ public:
 
         iterator() = default;
 
-        explicit iterator( buffered_channel< T > * chan) noexcept :
+        explicit iterator( buffered_channel< T > * chan) :
             chan_{ chan } {
             increment_();
         }
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 2c11e33..bf7aeb7 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -349,7 +349,7 @@ public:
 
         iterator() = default;
 
-        explicit iterator( unbuffered_channel< T > * chan) noexcept :
+        explicit iterator( unbuffered_channel< T > * chan) :
             chan_{ chan } {
             increment_();
         }
-- 
2.43.0


From 4e7fe63809c748fd0b467c6a33dbde80054a0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 17/30] fix: unbuffered_channel::value_pop() must not lose the
 value if its move constructor throws

---
 include/boost/fiber/unbuffered_channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index bf7aeb7..90678e6 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -276,7 +276,7 @@ public:
                 // consume value
                 value_type value = std::move( s->value);
                 consumed_( lk, s);
-                return std::move( value);
+                return value;
             }
             waiting_consumers_.suspend_and_wait( lk, active_ctx);
             // resumed, slot mabye set
-- 
2.43.0


From 2d237d08bf37f6f960804beafdca0ac3e1e67469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 18/30] fix: channels: a notified fiber that fails to transfer
 a value passes the notification on

---
 include/boost/fiber/buffered_channel.hpp   | 33 ++++++++++++++++++++++
 include/boost/fiber/unbuffered_channel.hpp | 25 ++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index 983447d..120e4fb 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -49,6 +49,25 @@ private:
 	std::size_t                                         capacity_;
     bool                                                closed_{ false };
 
+    // a notified producer/consumer that failed to transfer its value passes the notification on
+    struct pass_on {
+        wait_queue  &   wq;
+        bool            transferred{ false };
+
+        explicit pass_on( wait_queue & wq_) noexcept :
+            wq( wq_) {
+        }
+
+        pass_on( pass_on const&) = delete;
+        pass_on & operator=( pass_on const&) = delete;
+
+        ~pass_on() {
+            if ( BOOST_UNLIKELY( ! transferred) ) {
+                wq.notify_one();
+            }
+        }
+    };
+
 	bool is_full_() const noexcept {
 		return cidx_ == ((pidx_ + 1) % capacity_);
 	}
@@ -156,7 +175,9 @@ public:
             if ( is_full_() ) {
                 waiting_producers_.suspend_and_wait( lk, active_ctx);
             } else {
+                pass_on guard{ waiting_producers_ };
                 slots_[pidx_] = value;
+                guard.transferred = true;
                 pidx_ = (pidx_ + 1) % capacity_;
                 waiting_consumers_.notify_one();
                 return channel_op_status::success;
@@ -178,7 +199,9 @@ public:
             if ( is_full_() ) {
                 waiting_producers_.suspend_and_wait( lk, active_ctx);
             } else {
+                pass_on guard{ waiting_producers_ };
                 slots_[pidx_] = std::move( value);
+                guard.transferred = true;
                 pidx_ = (pidx_ + 1) % capacity_;
 
                 waiting_consumers_.notify_one();
@@ -220,7 +243,9 @@ public:
                     return channel_op_status::timeout;
                 }
             } else {
+                pass_on guard{ waiting_producers_ };
                 slots_[pidx_] = value;
+                guard.transferred = true;
                 pidx_ = (pidx_ + 1) % capacity_;
                 waiting_consumers_.notify_one();
                 return channel_op_status::success;
@@ -247,7 +272,9 @@ public:
                     return channel_op_status::timeout;
                 }
             } else {
+                pass_on guard{ waiting_producers_ };
                 slots_[pidx_] = std::move( value);
+                guard.transferred = true;
                 pidx_ = (pidx_ + 1) % capacity_;
                 // notify one waiting consumer
                 waiting_consumers_.notify_one();
@@ -288,7 +315,9 @@ public:
                 }
                 waiting_consumers_.suspend_and_wait( lk, active_ctx);
             } else {
+                pass_on guard{ waiting_consumers_ };
                 value = std::move( slots_[cidx_]);
+                guard.transferred = true;
                 cidx_ = (cidx_ + 1) % capacity_;
                 waiting_producers_.notify_one();
                 return channel_op_status::success;
@@ -312,7 +341,9 @@ public:
                 }
                 waiting_consumers_.suspend_and_wait( lk, active_ctx);
             } else {
+                pass_on guard{ waiting_consumers_ };
                 value_type value = std::move( slots_[cidx_]);
+                guard.transferred = true;
                 cidx_ = (cidx_ + 1) % capacity_;
                 waiting_producers_.notify_one();
                 return value;
@@ -346,7 +377,9 @@ public:
                     return channel_op_status::timeout;
                 }
             } else {
+                pass_on guard{ waiting_consumers_ };
                 value = std::move( slots_[cidx_]);
+                guard.transferred = true;
                 cidx_ = (cidx_ + 1) % capacity_;
                 waiting_producers_.notify_one();
                 return channel_op_status::success;
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 90678e6..eeb0f60 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -67,6 +67,25 @@ private:
     wait_queue                  waiting_consumers_{};
     char                        pad_[cacheline_length];
 
+    // a notified consumer that failed to take the value passes the notification on
+    struct pass_on {
+        wait_queue  &   wq;
+        bool            transferred{ false };
+
+        explicit pass_on( wait_queue & wq_) noexcept :
+            wq( wq_) {
+        }
+
+        pass_on( pass_on const&) = delete;
+        pass_on & operator=( pass_on const&) = delete;
+
+        ~pass_on() {
+            if ( BOOST_UNLIKELY( ! transferred) ) {
+                wq.notify_one();
+            }
+        }
+    };
+
     bool is_empty_() {
         return nullptr == slot_.load( std::memory_order_acquire);
     }
@@ -254,7 +273,9 @@ public:
                 return channel_op_status::closed;
             }
             if ( slot * s = slot_.load( std::memory_order_acquire) ) {
+                pass_on guard{ waiting_consumers_ };
                 value = std::move( s->value);
+                guard.transferred = true;
                 consumed_( lk, s);
                 return channel_op_status::success;
             }
@@ -274,7 +295,9 @@ public:
             }
             if ( slot * s = slot_.load( std::memory_order_acquire) ) {
                 // consume value
+                pass_on guard{ waiting_consumers_ };
                 value_type value = std::move( s->value);
+                guard.transferred = true;
                 consumed_( lk, s);
                 return value;
             }
@@ -302,7 +325,9 @@ public:
             }
             if ( slot * s = slot_.load( std::memory_order_acquire) ) {
                 // consume value
+                pass_on guard{ waiting_consumers_ };
                 value = std::move( s->value);
+                guard.transferred = true;
                 consumed_( lk, s);
                 return channel_op_status::success;
             }
-- 
2.43.0


From 5872486e8c85f9397e8478d92d88b6218ebe4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 19/30] fix: take all ready fibers from the old algorithm
 before handing them to the new one

---
 src/scheduler.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 632700b..0d62215 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -327,8 +327,18 @@ scheduler::has_ready_fibers() const noexcept {
 void
 scheduler::set_algo( algo::algorithm::ptr_t algo) noexcept {
     // move remaining context in current scheduler to new one
+    // (both might share a queue with each other and with other threads)
+    ready_queue_type ready_queue;
     while ( algo_->has_ready_fibers() ) {
-        algo->awakened( algo_->pick_next() );
+        context * ctx = algo_->pick_next();
+        if ( nullptr != ctx) {
+            ctx->ready_link( ready_queue);
+        }
+    }
+    while ( ! ready_queue.empty() ) {
+        context * ctx = & ready_queue.front();
+        ready_queue.pop_front();
+        algo->awakened( ctx);
     }
 #if ! defined(BOOST_FIBERS_NO_ATOMICS)
     // other threads access algo_ in schedule_from_remote()
-- 
2.43.0


From e9eae300daffa14cde76a655c5d0ca7ed48b8b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 20/30] fix: topology(): no online CPU list yields an empty
 topology

An empty or missing /sys/devices/system/cpu/online made std::stoul() throw
instead of returning the empty topology the code prepares for.
---
 src/numa/linux/topology.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/numa/linux/topology.cpp b/src/numa/linux/topology.cpp
index 8555afb..5268ad9 100644
--- a/src/numa/linux/topology.cpp
+++ b/src/numa/linux/topology.cpp
@@ -104,6 +104,10 @@ std::set< std::uint32_t > ids_from_line( std::string const& content) {
     al::split( v1, content, al::is_any_of(",") );
     for ( std::string entry : v1) {
         al::trim( entry);
+        if ( entry.empty() ) {
+            // no ID, e.g. file is empty or could not be opened
+            continue;
+        }
         std::vector< std::string > v2;
         al::split( v2, entry, al::is_any_of("-") );
         BOOST_ASSERT( ! v2.empty() );
-- 
2.43.0


From 9631eca72e47292a054021d9252cb96c0fb3e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 21/30] fix: work_stealing: do not look for a victim if there
 is only one logical cpu

pick_next() looped for ever trying to find a scheduler other than its own.
---
 src/algo/work_stealing.cpp      | 5 +++--
 src/numa/algo/work_stealing.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/algo/work_stealing.cpp b/src/algo/work_stealing.cpp
index ae9ece8..5ff32ac 100644
--- a/src/algo/work_stealing.cpp
+++ b/src/algo/work_stealing.cpp
@@ -68,7 +68,8 @@ work_stealing::pick_next() noexcept {
         static thread_local std::minstd_rand generator{ std::random_device{}() };
         std::uniform_int_distribution< std::uint32_t > distribution{
             0, static_cast< std::uint32_t >( thread_count_ - 1) };
-        do {
+        // a single logical cpu has nobody to steal from
+        while ( nullptr == victim && count < size && 1 < size) {
             do {
                 ++count;
                 // random selection of one logical cpu
@@ -78,7 +79,7 @@ work_stealing::pick_next() noexcept {
             } while ( id == id_);
             // steal context from other scheduler
             victim = schedulers_[id]->steal();
-        } while ( nullptr == victim && count < size);
+        }
         if ( nullptr != victim) {
             boost::context::detail::prefetch_range( victim, sizeof( context) );
             BOOST_ASSERT( ! victim->is_context( type::pinned_context) );
diff --git a/src/numa/algo/work_stealing.cpp b/src/numa/algo/work_stealing.cpp
index d3653d6..9022a17 100644
--- a/src/numa/algo/work_stealing.cpp
+++ b/src/numa/algo/work_stealing.cpp
@@ -112,7 +112,8 @@ work_stealing::pick_next() noexcept {
             0, static_cast< std::uint32_t >( local_cpus_.size() - 1) };
         std::uniform_int_distribution< std::uint32_t > remote_distribution{
             0, static_cast< std::uint32_t >( remote_cpus_.size() - 1) };
-        do {
+        // a single logical cpu has nobody to steal from
+        while ( nullptr == victim && count < size && 1 < size) {
             do {
                 ++count;
                 // random selection of one logical cpu
@@ -124,7 +125,7 @@ work_stealing::pick_next() noexcept {
             // schedulers_[cpu_id] should never contain a nullptr
             BOOST_ASSERT( nullptr != schedulers_[cpu_id]);
             victim = schedulers_[cpu_id]->steal();
-        } while ( nullptr == victim && count < size);
+        }
         if ( nullptr != victim) {
             boost::context::detail::prefetch_range( victim, sizeof( context) );
             BOOST_ASSERT( ! victim->is_context( type::pinned_context) );
-- 
2.43.0


From cdebdcb7682f4e22c8dd04f88fc9d5e5bc35f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 22/30] fix: hip/waitfor.hpp: use namespace hip and an include
 guard of its own

The header declared boost::fibers::cuda::waitfor_all() (documentation and
examples use boost::fibers::hip) and shared the include guard of the CUDA header.
---
 include/boost/fiber/hip/waitfor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index e05099e..a568e5e 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -4,8 +4,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#ifndef BOOST_FIBERS_CUDA_WAITFOR_H
-#define BOOST_FIBERS_CUDA_WAITFOR_H
+#ifndef BOOST_FIBERS_HIP_WAITFOR_H
+#define BOOST_FIBERS_HIP_WAITFOR_H
 
 #include <initializer_list>
 #include <mutex>
@@ -30,7 +30,7 @@
 
 namespace boost {
 namespace fibers {
-namespace cuda {
+namespace hip {
 namespace detail {
 
 template< typename Rendezvous >
@@ -136,4 +136,4 @@ std::vector< std::tuple< hipStream_t, hipError_t > > waitfor_all( hipStream_t st
 #  include BOOST_ABI_SUFFIX
 #endif
 
-#endif // BOOST_FIBERS_CUDA_WAITFOR_H
+#endif // BOOST_FIBERS_HIP_WAITFOR_H
-- 
2.43.0


From 5124e96eb83e44d27cb17df2649144ebc186c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 23/30] fix: cuda, hip: the driver's callback must not race
 with the waiting fiber

notify() used the condition variable after the waiting fiber could have
returned and destroyed it; the constructor iterated over the set of streams
that callbacks (and its own error handling) erase from.
---
 include/boost/fiber/cuda/waitfor.hpp | 8 +++++---
 include/boost/fiber/hip/waitfor.hpp  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 262efd9..475215d 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -56,7 +56,7 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // keep the lock: the waiting fiber destroys *this as soon as it can see done_
         cv_.notify_one();
     }
 
@@ -79,7 +79,9 @@ public:
     many_streams_rendezvous( std::initializer_list< cudaStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( cudaStream_t st : stx_) {
+        // callbacks of the streams already registered modify stx_
+        const std::set< cudaStream_t > streams{ stx_ };
+        for ( cudaStream_t st : streams) {
             unsigned int flags = 0;
             cudaError_t status = ::cudaStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( cudaSuccess != status) {
@@ -95,7 +97,7 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // keep the lock: the waiting fiber destroys *this as soon as it can see this
             cv_.notify_one();
         }
     }
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index a568e5e..9a0f18d 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -56,7 +56,7 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // keep the lock: the waiting fiber destroys *this as soon as it can see done_
         cv_.notify_one();
     }
 
@@ -79,7 +79,9 @@ public:
     many_streams_rendezvous( std::initializer_list< hipStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( hipStream_t st : stx_) {
+        // callbacks of the streams already registered modify stx_
+        const std::set< hipStream_t > streams{ stx_ };
+        for ( hipStream_t st : streams) {
             unsigned int flags = 0;
             hipError_t status = ::hipStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( hipSuccess != status) {
@@ -95,7 +97,7 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // keep the lock: the waiting fiber destroys *this as soon as it can see this
             cv_.notify_one();
         }
     }
-- 
2.43.0


From d12b918c9e6a390dcbc750669e64f3a0cd7d502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 24/30] fix: fiber_specific_ptr: clean-up functions may use
 fiber-specific pointers

A value was still registered while its clean-up function ran: a clean-up that
reset the pointer cleaned the same value a second time and invalidated the
iterator in use, values already cleaned up stayed visible to the clean-ups that
followed at the exit of a fiber, and values set by a clean-up were dropped.
---
 src/context.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 12fe37b..7c09ece 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -266,10 +266,12 @@ context::terminate() noexcept {
     // release fiber-specific-data
     // part of the fiber: done before joining fibers are notified
     // and without holding the lock, the clean-up might suspend
-    for ( fss_data_t::value_type & data : fss_data_) {
-        data.second.do_cleanup();
+    // and access fiber-specific-data
+    while ( ! fss_data_.empty() ) {
+        fss_data data{ fss_data_.begin()->second };
+        fss_data_.erase( fss_data_.begin() );
+        data.do_cleanup();
     }
-    fss_data_.clear();
     // protect for concurrent access
     std::unique_lock< detail::spinlock > lk{ splk_ };
     // mark as terminated
@@ -357,14 +359,16 @@ context::set_fss_data( void const * vp,
     auto key = reinterpret_cast< uintptr_t >( vp);
     auto i = fss_data_.find( key);
     if ( fss_data_.end() != i) {
-        if( cleanup_existing) {
-            i->second.do_cleanup();
-        }
+        fss_data existing{ i->second };
         if ( nullptr != data) {
             i->second = fss_data{ data, cleanup_fn };
         } else {
             fss_data_.erase( i);
         }
+        // the clean-up might access fiber-specific-data
+        if( cleanup_existing) {
+            existing.do_cleanup();
+        }
     } else if ( nullptr != data) {
         fss_data_.insert(
             std::make_pair(
-- 
2.43.0


From dc6fa2e1794e83a59c67e055a6b10da715148932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 25/30] fix: scheduler: do not assert that a thread is running
 when fibers are scheduled remotely

A fiber may be woken up by another thread while its own thread is already
finishing: the scheduler's destructor waits for the remaining fibers, so a
remote schedule is legal then.
---
 src/scheduler.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 0d62215..8007c2d 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -205,7 +205,6 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( ! ctx->terminated_is_linked() );
     // protect for concurrent access
     detail::spinlock_lock lk{ remote_ready_splk_ };
-    BOOST_ASSERT( ! shutdown_);
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // push new context to remote ready-queue
-- 
2.43.0


From 355e80e33d00cea13b779a2c48fb3c16972161d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 26/30] fix: context::join(): do not inspect context::active()
 after the suspension

The active context might have been migrated to another thread, but the
compiler may keep the address of the thread-local variable across the
suspension: the assertion read the variable of the other thread.
---
 src/context.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 7c09ece..38ab617 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -237,8 +237,10 @@ context::join() {
         // of the context which has to be joined by
         // the active context
         wait_queue_.suspend_and_wait( lk, active_ctx);
-        // active context resumed
-        BOOST_ASSERT( context::active() == active_ctx);
+        // active context resumed, perhaps in another thread:
+        // context::active() must not be inspected in this function
+        // anymore, the compiler might have kept the address of the
+        // thread-local variable of the previous thread
     }
 }
 
-- 
2.43.0


From 2184569ca2d03b3cc5a55dcb6e96e20ba7fbda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 27/30] fix: fiber_properties::notify(): the algorithm is only
 required for ready fibers

A fiber launched with launch::dispatch and its own properties runs before it
was passed to the algorithm for the first time.
---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index f59ae3a..b69bbd4 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -20,7 +20,6 @@ namespace fibers {
 
 void
 fiber_properties::notify() noexcept {
-    BOOST_ASSERT( nullptr != algo_);
     // Application code might change an important property for any fiber at
     // any time. The fiber in question might be ready, running or waiting.
     // Significantly, only a fiber which is ready but not actually running is
@@ -28,6 +27,7 @@ fiber_properties::notify() noexcept {
     // with a change to a fiber it's not currently tracking: it will do the
     // right thing next time the fiber is passed to its awakened() method.
     if ( ctx_->ready_is_linked() ) {
+        BOOST_ASSERT( nullptr != algo_);
         dynamic_cast< algo::algorithm_with_properties_base * >( algo_)->
             property_change_( ctx_, this);
     }
-- 
2.43.0


From 1856629e96a9ef7ef707c9a5d5a54bda61e10553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:29 +0000
Subject: [PATCH 28/30] fix: spinlock_rtm: compile with the futex based
 spinlocks

---
 include/boost/fiber/detail/spinlock_rtm.hpp               | 8 ++++----
 include/boost/fiber/detail/spinlock_ttas.hpp              | 5 +++++
 include/boost/fiber/detail/spinlock_ttas_adaptive.hpp     | 5 +++++
 .../boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp   | 5 +++++
 include/boost/fiber/detail/spinlock_ttas_futex.hpp        | 5 +++++
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_rtm.hpp b/include/boost/fiber/detail/spinlock_rtm.hpp
index a38f4e7..9774418 100644
--- a/include/boost/fiber/detail/spinlock_rtm.hpp
+++ b/include/boost/fiber/detail/spinlock_rtm.hpp
@@ -41,7 +41,7 @@ public:
             std::uint32_t status;
             if ( rtm_status::success == ( status = rtm_begin() ) ) {
                 // add lock to read-set
-                if ( spinlock_status::unlocked == splk_.state_.load( std::memory_order_relaxed) ) {
+                if ( splk_.is_unlocked_( std::memory_order_relaxed) ) {
                     // lock is free, enter critical section
                     return;
                 }
@@ -71,7 +71,7 @@ public:
                 // abort was not caused by a nested transaction
                 // wait till lock becomes free again
                 std::size_t count = 0;
-                while ( spinlock_status::locked == splk_.state_.load( std::memory_order_relaxed) ) {
+                while ( ! splk_.is_unlocked_( std::memory_order_relaxed) ) {
                     if ( BOOST_FIBERS_SPIN_BEFORE_SLEEP0 > count) {
                         ++count;
                         cpu_relax();
@@ -105,7 +105,7 @@ public:
         }
 
         // add lock to read-set
-        if ( spinlock_status::unlocked != splk_.state_.load( std::memory_order_relaxed) ) {
+        if ( ! splk_.is_unlocked_( std::memory_order_relaxed) ) {
             // lock was acquired by another thread
             // explicit abort of transaction with abort argument 'lock not free'
             rtm_abort_lock_not_free();
@@ -114,7 +114,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( spinlock_status::unlocked == splk_.state_.load( std::memory_order_acquire) ) {
+        if ( splk_.is_unlocked_( std::memory_order_acquire) ) {
             rtm_end();
         } else {
             splk_.unlock();
diff --git a/include/boost/fiber/detail/spinlock_ttas.hpp b/include/boost/fiber/detail/spinlock_ttas.hpp
index cb89e91..7788890 100644
--- a/include/boost/fiber/detail/spinlock_ttas.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas.hpp
@@ -33,6 +33,11 @@ private:
 
     std::atomic< spinlock_status >              state_{ spinlock_status::unlocked };
 
+    // used by spinlock_rtm
+    bool is_unlocked_( std::memory_order mo) const noexcept {
+        return spinlock_status::unlocked == state_.load( mo);
+    }
+
 public:
     spinlock_ttas() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
index 4ebf1e2..71f08e3 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
@@ -34,6 +34,11 @@ private:
     std::atomic< spinlock_status >              state_{ spinlock_status::unlocked };
     std::atomic< std::size_t >                  retries_{ 0 };
 
+    // used by spinlock_rtm
+    bool is_unlocked_( std::memory_order mo) const noexcept {
+        return spinlock_status::unlocked == state_.load( mo);
+    }
+
 public:
     spinlock_ttas_adaptive() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 1628a8c..d492139 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -33,6 +33,11 @@ private:
     std::atomic< std::int32_t >                 value_{ 0 };
     std::atomic< std::int32_t >                 retries_{ 0 };
 
+    // used by spinlock_rtm
+    bool is_unlocked_( std::memory_order mo) const noexcept {
+        return 0 == value_.load( mo);
+    }
+
 public:
     spinlock_ttas_adaptive_futex() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index 3aefdc1..b2ba910 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -32,6 +32,11 @@ private:
 
     std::atomic< std::int32_t >                 value_{ 0 };
 
+    // used by spinlock_rtm
+    bool is_unlocked_( std::memory_order mo) const noexcept {
+        return 0 == value_.load( mo);
+    }
+
 public:
     spinlock_ttas_futex() = default;
 
-- 
2.43.0


From 3b9c2de176e8df4f43e7b78be995565d2b3dbc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:29 +0000
Subject: [PATCH 29/30] fix: spinlock_rtm::try_lock(): use the fallback path if
 the transaction aborts

---
 include/boost/fiber/detail/spinlock_rtm.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/spinlock_rtm.hpp b/include/boost/fiber/detail/spinlock_rtm.hpp
index 9774418..cb01315 100644
--- a/include/boost/fiber/detail/spinlock_rtm.hpp
+++ b/include/boost/fiber/detail/spinlock_rtm.hpp
@@ -101,7 +101,10 @@ public:
 
     bool try_lock() noexcept {
         if ( rtm_status::success != rtm_begin() ) {
-            return false;
+            // transaction aborted, maybe because the critical section
+            // can not be executed by a transaction (system calls ...)
+            // -> use fallback path
+            return splk_.try_lock();
         }
 
         // add lock to read-set
-- 
2.43.0


From 7f733c803ae413ae501f5c93e65f376ed0d110c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:29 +0000
Subject: [PATCH 30/30] fix: compile with BOOST_FIBERS_NO_ATOMICS

---
 include/boost/fiber/context.hpp         | 10 ++++++++++
 include/boost/fiber/detail/spinlock.hpp | 12 ++++--------
 include/boost/fiber/scheduler.hpp       |  2 +-
 include/boost/fiber/waker.hpp           |  2 ++
 src/context.cpp                         | 13 +++++++++++++
 5 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 469f610..8000488 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -149,6 +149,8 @@ private:
 public:
 #if ! defined(BOOST_FIBERS_NO_ATOMICS)
     std::atomic<size_t>                                 waker_epoch_{ 0 };
+#else
+    size_t                                              waker_epoch_{ 0 };
 #endif
 private:
     scheduler                                       *   scheduler_{ nullptr };
@@ -373,13 +375,21 @@ public:
       
     friend void intrusive_ptr_add_ref( context * ctx) noexcept {
         BOOST_ASSERT( nullptr != ctx);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
         ctx->use_count_.fetch_add( 1, std::memory_order_relaxed);
+#else
+        ++ctx->use_count_;
+#endif
     }
 
     friend void intrusive_ptr_release( context * ctx) noexcept {
         BOOST_ASSERT( nullptr != ctx);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
         if ( 1 == ctx->use_count_.fetch_sub( 1, std::memory_order_release) ) {
             std::atomic_thread_fence( std::memory_order_acquire);
+#else
+        if ( 0 == --ctx->use_count_) {
+#endif
             boost::context::fiber c = std::move( ctx->c_);
             // destruct context
             ctx->~context();
diff --git a/include/boost/fiber/detail/spinlock.hpp b/include/boost/fiber/detail/spinlock.hpp
index 59d2a5c..51f3a8c 100644
--- a/include/boost/fiber/detail/spinlock.hpp
+++ b/include/boost/fiber/detail/spinlock.hpp
@@ -7,12 +7,13 @@
 #ifndef BOOST_FIBERS_SPINLOCK_H
 #define BOOST_FIBERS_SPINLOCK_H
 
+#include <mutex>
+
 #include <boost/config.hpp>
 
 #include <boost/fiber/detail/config.hpp>
 
 #if !defined(BOOST_FIBERS_NO_ATOMICS) 
-# include <mutex>
 # include <boost/fiber/detail/spinlock_ttas_adaptive.hpp>
 # include <boost/fiber/detail/spinlock_ttas.hpp>
 # if defined(BOOST_FIBERS_HAS_FUTEX)
@@ -36,12 +37,7 @@ namespace detail {
 struct spinlock {
     constexpr spinlock() noexcept {}
     void lock() noexcept {}
-    void unlock() noexcept {}
-};
-
-struct spinlock_lock {
-    constexpr spinlock_lock( spinlock &) noexcept {}
-    void lock() noexcept {}
+    bool try_lock() noexcept { return true; }
     void unlock() noexcept {}
 };
 #else
@@ -72,8 +68,8 @@ using spinlock = spinlock_rtm< spinlock_ttas >;
 using spinlock = spinlock_ttas;
 #  endif
 # endif
-using spinlock_lock = std::unique_lock< spinlock >;
 #endif
+using spinlock_lock = std::unique_lock< spinlock >;
 
 }}}
 
diff --git a/include/boost/fiber/scheduler.hpp b/include/boost/fiber/scheduler.hpp
index 36a378e..327d633 100644
--- a/include/boost/fiber/scheduler.hpp
+++ b/include/boost/fiber/scheduler.hpp
@@ -72,6 +72,7 @@ private:
                 intrusive::linear< true >,
                 intrusive::cache_last< true >
             >                                               terminated_queue_type;
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     typedef intrusive::slist<
                 context,
                 intrusive::member_hook<
@@ -80,7 +81,6 @@ private:
                 intrusive::cache_last< true >
             >                                               remote_ready_queue_type;
 
-#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     // remote ready-queue contains context' signaled by schedulers
     // running in other threads
     detail::spinlock                                            remote_ready_splk_{};
diff --git a/include/boost/fiber/waker.hpp b/include/boost/fiber/waker.hpp
index d14d53c..1c8e77d 100644
--- a/include/boost/fiber/waker.hpp
+++ b/include/boost/fiber/waker.hpp
@@ -1,7 +1,9 @@
 #ifndef BOOST_FIBERS_WAKER_H
 #define BOOST_FIBERS_WAKER_H
 
+#include <chrono>
 #include <cstddef>
+#include <mutex>
 
 #include <boost/config.hpp>
 #include <boost/fiber/detail/config.hpp>
diff --git a/src/context.cpp b/src/context.cpp
index 38ab617..b5391ac 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -304,8 +304,15 @@ context::wait_until( std::chrono::steady_clock::time_point const& tp,
 
 bool context::wake(const size_t epoch) noexcept
 {
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     size_t expected = epoch;
     bool is_last_waker = waker_epoch_.compare_exchange_strong(expected, epoch + 1, std::memory_order_acq_rel);
+#else
+    bool is_last_waker = waker_epoch_ == epoch;
+    if ( is_last_waker) {
+        ++waker_epoch_;
+    }
+#endif
     if ( ! is_last_waker) {
         // waker_epoch_ has been incremented before, so consider this wake
         // operation as outdated and do nothing
@@ -315,8 +322,10 @@ bool context::wake(const size_t epoch) noexcept
     BOOST_ASSERT( context::active() != this);
     if ( context::active()->get_scheduler() == get_scheduler()) {
         get_scheduler()->schedule( this);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     } else {
         get_scheduler()->schedule_from_remote( this);
+#endif
     }
     return true;
 }
@@ -397,7 +406,11 @@ context::ready_is_linked() const noexcept {
 
 bool
 context::remote_ready_is_linked() const noexcept {
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
     return remote_ready_hook_.is_linked();
+#else
+    return false;
+#endif
 }
 
 bool
-- 
2.43.0

