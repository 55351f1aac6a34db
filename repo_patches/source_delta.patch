From f8628b3279013fadf4958e204d9edd013719c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:46 +0000
Subject: [PATCH 01/15] fix: manual_reset_event: waiting until a time point of
 a non-system clock does not compile

The futex back end passed a system_duration to the public timed_wait(), for which no time_traits exist.
---
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index cb8b5c6..362a7d2 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -193,7 +193,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-- 
2.43.0


From a18eacac9663632a7aa109c7f085e5d5e3e1e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:46 +0000
Subject: [PATCH 02/15] fix: system_time_point: adding or converting a negative
 duration yields a time far in the future

The unsigned subsecond_fraction made the division and remainder unsigned, so timed operations with a
negative duration or a passed time point of a non-system clock blocked (practically) forever.
---
 include/boost/sync/detail/time_units.hpp | 32 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index e7fe6fe..00e0f74 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -172,8 +172,16 @@ public:
     //! Creates time point from duration since 1970-Jan-01
     explicit system_time_point(system_duration dur) BOOST_NOEXCEPT
     {
-        m_value.tv_sec = static_cast< ::time_t >(dur.get() / subsecond_fraction);
-        m_value.tv_nsec = dur.get() % subsecond_fraction;
+        // The division must be signed, or else negative durations will be converted incorrectly
+        int64_t sec = dur.get() / static_cast< int64_t >(subsecond_fraction);
+        int64_t nsec = dur.get() % static_cast< int64_t >(subsecond_fraction);
+        if (nsec < 0)
+        {
+            nsec += subsecond_fraction;
+            --sec;
+        }
+        m_value.tv_sec = static_cast< ::time_t >(sec);
+        m_value.tv_nsec = static_cast< long >(nsec);
     }
 
     native_type const& get() const BOOST_NOEXCEPT { return m_value; }
@@ -195,15 +203,21 @@ public:
 
     system_time_point& operator+= (system_duration const& dur) BOOST_NOEXCEPT
     {
-        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get();
-        int64_t tv_nsec = nsec % system_duration::subsecond_fraction;
-        if (tv_nsec < 0)
+        // The division must be signed, or else negative durations will be added incorrectly
+        int64_t sec = dur.get() / static_cast< int64_t >(subsecond_fraction);
+        int64_t nsec = dur.get() % static_cast< int64_t >(subsecond_fraction) + m_value.tv_nsec;
+        if (nsec < 0)
+        {
+            nsec += subsecond_fraction;
+            --sec;
+        }
+        else if (nsec >= static_cast< int64_t >(subsecond_fraction))
         {
-            tv_nsec += subsecond_fraction;
-            --m_value.tv_sec;
+            nsec -= subsecond_fraction;
+            ++sec;
         }
-        m_value.tv_nsec = static_cast< long >(tv_nsec);
-        m_value.tv_sec += nsec / system_duration::subsecond_fraction;
+        m_value.tv_nsec = static_cast< long >(nsec);
+        m_value.tv_sec += static_cast< ::time_t >(sec);
 
         return *this;
     }
-- 
2.43.0


From 04bdd3ab84a170df0f6a052e4e2ad0be4ff4688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:46 +0000
Subject: [PATCH 03/15] fix: futex events: a wait for a duration starts over
 after each interruption or spurious wakeup

The relative timeout was re-armed in full; convert it to an absolute deadline once.
---
 .../detail/events/auto_reset_event_futex.hpp  | 49 ++-----------------
 .../events/manual_reset_event_futex.hpp       | 36 ++------------
 2 files changed, 7 insertions(+), 78 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 1ca2db1..e72028c 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -223,54 +223,11 @@ private:
         if (this->try_wait())
             return true;
 
-        sync::detail::system_duration::native_type time_left = dur.get();
-        if (time_left <= 0)
+        if (dur.get() <= 0)
             return false;
 
-        // Add one waiter
-        unsigned int old_state = m_state.fetch_add(1, detail::atomic_ns::memory_order_relaxed);
-        while (true)
-        {
-            unsigned int posts = old_state >> wait_count_bits;
-            if (posts == 0)
-            {
-                ++old_state; // account for the waiter added above
-
-                while (true)
-                {
-                    const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state), old_state, time_left);
-                    if (status != 0)
-                    {
-                        const int err = errno;
-                        switch (err)
-                        {
-                        case ETIMEDOUT:
-                            return on_wait_timed_out();
-
-                        case EINTR:       // signal received
-                        case EWOULDBLOCK: // another thread changed the state
-                            break;
-
-                        default:
-                            BOOST_ASSERT(false);
-                        }
-                    }
-
-                    old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-                    posts = old_state >> wait_count_bits;
-                    if (BOOST_LIKELY(posts > 0))
-                        break;
-                }
-            }
-
-            // Remove one post and one waiter from the counters
-            if (BOOST_LIKELY(m_state.compare_exchange_weak(old_state, old_state - (post_count_one + 1u), detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed)))
-                break;
-
-            detail::pause();
-        }
-
-        return true;
+        // Convert to an absolute deadline, so that interrupted and spurious wakeups do not extend the wait
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 362a7d2..282152e 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -149,39 +149,11 @@ private:
         if (this->try_wait())
             return true;
 
-        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
-        while ((old_state & post_bit) == 0u)
-        {
-            sync::detail::system_duration::native_type time_left = dur.get();
-            if (time_left <= 0)
-            {
-                m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                return false;
-            }
-
-            // Check that system time resolution is nanoseconds
-            BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
-            do
-            {
-                const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
-                if (status != 0)
-                {
-                    const int err = errno;
-                    if (BOOST_LIKELY(err == ETIMEDOUT))
-                    {
-                        m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                        return false;
-                    }
-                }
-
-                old_state = m_state.load(boost::memory_order_relaxed);
-            }
-            while ((old_state & post_bit) == 0u);
-        }
+        if (dur.get() <= 0)
+            return false;
 
-        m_state.opaque_sub(wait_count_one, boost::memory_order_acquire);
-
-        return true;
+        // Convert to an absolute deadline, so that interrupted and spurious wakeups do not extend the wait
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
-- 
2.43.0


From 4225982ee1ee59e812e25e87dc679c4a308bb0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:32 +0000
Subject: [PATCH 04/15] fix: shared_spin_mutex::try_lock_shared fails although
 nobody holds the lock exclusively

---
 .../sync/detail/mutexes/shared_spin_mutex.hpp   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
index 87ccfac..3034a46 100644
--- a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
@@ -104,15 +104,14 @@ public:
 
     bool try_lock_shared() BOOST_NOEXCEPT
     {
-        /* with the mask, the cas will fail, locked exclusively */
-        uint32_t current_state    = state.load(detail::atomic_ns::memory_order_acquire) & reader_mask;
-        const uint32_t next_state = current_state + 1;
-
-        if ( state.compare_exchange_strong(current_state, next_state, detail::atomic_ns::memory_order_acquire,
-                                           detail::atomic_ns::memory_order_relaxed) )
-            return true;
-        else
-            return false;
+        /* a concurrent reader may change the state, retry unless locked exclusively */
+        uint32_t current_state = state.load(detail::atomic_ns::memory_order_relaxed);
+        while ( current_state != locked_state ) {
+            if ( state.compare_exchange_weak(current_state, current_state + 1, detail::atomic_ns::memory_order_acquire,
+                                             detail::atomic_ns::memory_order_relaxed) )
+                return true;
+        }
+        return false;
     }
 
     void unlock_shared() BOOST_NOEXCEPT
-- 
2.43.0


From 9566f0e74299a260de88551de22d6da01ef8ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:49 +0000
Subject: [PATCH 05/15] fix: auto_reset_event (futex): the post counter
 overflows and all pending signals are lost when 1023 posts are pending

---
 .../sync/detail/events/auto_reset_event_futex.hpp     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index e72028c..afe5f14 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -47,7 +47,8 @@ private:
         wait_count_bits = 22u,
         post_count_one = 1u << wait_count_bits,
         post_count_mask = 0u - post_count_one,
-        wait_count_mask = post_count_one - 1u
+        wait_count_mask = post_count_one - 1u,
+        max_post_count = post_count_mask >> wait_count_bits
     };
 
 public:
@@ -65,6 +66,14 @@ public:
             posts = old_state >> wait_count_bits;
             if (waiters >= posts)
             {
+                if (BOOST_UNLIKELY(posts == max_post_count))
+                {
+                    // The post counter is full, adding one more post would lose all of them. Wait until one of the waiters woken by the previous posts takes its post.
+                    detail::pause();
+                    old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+                    continue;
+                }
+
                 if (m_state.compare_exchange_weak(old_state, old_state + post_count_one, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
                     break;
 
-- 
2.43.0


From e141a11d9e4100de28161c80a9178b00dac7c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 06/15] fix: condition_variable_any: predicate waits for a
 duration start over after each spurious wakeup

---
 .../condition_variable_any_generic.hpp        | 23 +++++++++++--------
 include/boost/sync/detail/time_units.hpp      | 13 +++++++++++
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
index 30fe69e..db1e443 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
@@ -21,6 +21,7 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -113,9 +114,9 @@ public:
         return m_cond.timed_wait(internal_lock, t);
     }
 
-    template< typename Lock, typename Time, typename Predicate >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type
-    timed_wait(Lock& lock, Time const& t, Predicate pred)
+    template< typename Lock, typename TimePoint, typename Predicate >
+    typename detail::enable_if_tag< TimePoint, detail::time_point_tag, bool >::type
+    timed_wait(Lock& lock, TimePoint const& t, Predicate pred)
     {
         while (!pred())
         {
@@ -125,6 +126,14 @@ public:
         return true;
     }
 
+    template< typename Lock, typename Duration, typename Predicate >
+    typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
+    timed_wait(Lock& lock, Duration const& t, Predicate pred)
+    {
+        // Convert to an absolute deadline, so that spurious wakeups do not extend the wait
+        return this->timed_wait(lock, sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(t), pred);
+    }
+
     template< typename Lock, typename TimePoint >
     typename detail::enable_if_tag< TimePoint, detail::time_point_tag, sync::cv_status >::type
     wait_until(Lock& lock, TimePoint const& abs_time)
@@ -161,12 +170,8 @@ public:
     typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
     wait_for(Lock& lock, Duration const& rel_time, Predicate pred)
     {
-        while (!pred())
-        {
-            if (this->wait_for(lock, rel_time) != sync::cv_status::no_timeout)
-                return pred();
-        }
-        return true;
+        // Convert to an absolute deadline, so that spurious wakeups do not extend the wait
+        return this->wait_until(lock, sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(rel_time), pred);
     }
 
     BOOST_DELETED_FUNCTION(condition_variable_any(condition_variable_any const&))
diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index 00e0f74..77008c6 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -17,6 +17,7 @@
 #include <time.h>
 #include <boost/cstdint.hpp>
 #include <boost/sync/detail/config.hpp>
+#include <boost/sync/detail/time_traits.hpp>
 
 #if defined(BOOST_SYNC_DETAIL_PLATFORM_WINAPI)
 #include <boost/winapi/time.hpp>
@@ -247,6 +248,18 @@ public:
 
 #endif
 
+//! Allows to pass an already converted time point to the public timed operations
+template< >
+struct time_traits< system_time_point >
+{
+    typedef time_point_tag tag;
+    typedef system_time_point unit_type;
+
+    static BOOST_CONSTEXPR_OR_CONST bool is_specialized = true;
+
+    static system_time_point const& to_sync_unit(system_time_point const& point) BOOST_NOEXCEPT { return point; }
+};
+
 template< typename TimePoint >
 class chrono_time_point :
     public TimePoint
-- 
2.43.0


From 338009063c8000c5ff5b21896726c7a0922803e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:07 +0000
Subject: [PATCH 07/15] fix: lock conversions access private members of the
 source lock and do not compile

---
 include/boost/sync/locks/shared_lock.hpp  | 4 ++--
 include/boost/sync/locks/unique_lock.hpp  | 2 +-
 include/boost/sync/locks/upgrade_lock.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/locks/shared_lock.hpp b/include/boost/sync/locks/shared_lock.hpp
index b825433..f034cc0 100644
--- a/include/boost/sync/locks/shared_lock.hpp
+++ b/include/boost/sync/locks/shared_lock.hpp
@@ -104,7 +104,7 @@ public:
 
     // Conversion from unique locking
     explicit shared_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_shared();
@@ -112,7 +112,7 @@ public:
     }
 
     explicit shared_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock_shared();
diff --git a/include/boost/sync/locks/unique_lock.hpp b/include/boost/sync/locks/unique_lock.hpp
index 98bd74a..4844d90 100644
--- a/include/boost/sync/locks/unique_lock.hpp
+++ b/include/boost/sync/locks/unique_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit unique_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock();
diff --git a/include/boost/sync/locks/upgrade_lock.hpp b/include/boost/sync/locks/upgrade_lock.hpp
index 765fe24..8fe0645 100644
--- a/include/boost/sync/locks/upgrade_lock.hpp
+++ b/include/boost/sync/locks/upgrade_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit upgrade_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_upgrade();
-- 
2.43.0


From 505769a296989a402e6bf6ac93d6ed0d7d28fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:59 +0000
Subject: [PATCH 08/15] fix: tss_manager: thread exit and value storage race
 with creation and deletion of keys in other threads

---
 src/tss_manager.hpp | 62 +++++++++++++++++++++++++++++++--------------
 src/tss_pthread.cpp |  2 +-
 src/tss_windows.cpp |  2 +-
 3 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 6cd7648..7aa8148 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -79,13 +79,6 @@ public:
                 return NULL;
         }
 
-        void set_value(thread_specific_key key, void* value)
-        {
-            if (key >= m_storage.size())
-                m_storage.resize(key + 1, static_cast< void* >(NULL));
-            m_storage[key] = value;
-        }
-
         void add_at_exit_entry(at_thread_exit_callback callback, void* context)
         {
             at_exit_entry entry;
@@ -161,22 +154,20 @@ public:
             }
         }
 
-        // Destroy TLS
-        while (!p->m_storage.empty())
+        // Destroy TLS. The cleanup functions may set new values, including the values that have already been cleaned up.
+        bool restart;
+        do
         {
-            std::vector< void* > storage;
-            storage.swap(p->m_storage);
-            for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
+            restart = false;
+            thread_specific_key key = 0;
+            void* value = NULL;
+            while (at_thread_exit_callback cleanup = extract_value(p, key, value))
             {
-                void* const value = storage[key];
-                if (value)
-                {
-                    const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
-                    if (cleanup)
-                        cleanup(value);
-                }
+                restart = true;
+                cleanup(value);
             }
         }
+        while (restart);
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
@@ -193,6 +184,17 @@ public:
         delete p;
     }
 
+    void set_value(thread_context* p, thread_specific_key key, void* value)
+    {
+        if (key >= p->m_storage.size())
+        {
+            // The storage can be concurrently accessed in delete_key
+            sync::lock_guard< mutex_type > lock(m_mutex);
+            p->m_storage.resize(key + 1, static_cast< void* >(NULL));
+        }
+        p->m_storage[key] = value;
+    }
+
     thread_specific_key new_key(at_thread_exit_callback cleanup, bool cleanup_at_delete)
     {
         sync::lock_guard< mutex_type > lock(m_mutex);
@@ -254,6 +256,28 @@ public:
         }
     }
 
+private:
+    //! Extracts the next value to clean up from the context, starting with the key. Returns the cleanup function or NULL if there are no more values.
+    at_thread_exit_callback extract_value(thread_context* p, thread_specific_key& key, void*& value)
+    {
+        // Keys can be concurrently created and deleted by other threads, along with the values
+        sync::lock_guard< mutex_type > lock(m_mutex);
+
+        for (thread_specific_key n = static_cast< thread_specific_key >(p->m_storage.size()); key < n; ++key)
+        {
+            value = p->m_storage[key];
+            if (value)
+            {
+                p->m_storage[key] = NULL;
+                if (at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup)
+                    return cleanup;
+            }
+        }
+
+        return NULL;
+    }
+
+public:
     BOOST_DELETED_FUNCTION(tss_manager(tss_manager const&))
     BOOST_DELETED_FUNCTION(tss_manager& operator= (tss_manager const&))
 };
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 29d57ca..c1b2c78 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -160,7 +160,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
         set_thread_context(ctx);
     }
 
-    ctx->set_value(key, p);
+    tss_mgr->set_value(ctx, key, p);
 }
 
 } // namespace detail
diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index 23bf218..480ee2e 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -230,7 +230,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
         set_thread_context(ctx);
     }
 
-    ctx->set_value(key, p);
+    tss_mgr->set_value(ctx, key, p);
 }
 
 } // namespace detail
-- 
2.43.0


From 1b6f46cb873f749397defbd34b94fe4fdcc48620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:36 +0000
Subject: [PATCH 09/15] fix: thread exit: functions and values registered by
 exit callbacks are lost, thread specific values are not accessible in exit
 callbacks

---
 src/tss_manager.hpp | 26 ++++++++++++++------------
 src/tss_pthread.cpp |  7 +++++++
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 7aa8148..0bce174 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -142,23 +142,25 @@ public:
 
     void destroy_thread_context(thread_context* p) BOOST_NOEXCEPT
     {
-        // Run cleanup functions
-        while (!p->m_at_exit_functions.empty())
+        // The functions called below may register new functions and set new values, including the values that have already been cleaned up
+        bool restart;
+        do
         {
-            std::vector< thread_context::at_exit_entry > at_exit_functions;
-            at_exit_functions.swap(p->m_at_exit_functions);
+            restart = false;
 
-            for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+            // Run cleanup functions
+            while (!p->m_at_exit_functions.empty())
             {
-                it->callback(it->context);
+                std::vector< thread_context::at_exit_entry > at_exit_functions;
+                at_exit_functions.swap(p->m_at_exit_functions);
+
+                for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+                {
+                    it->callback(it->context);
+                }
             }
-        }
 
-        // Destroy TLS. The cleanup functions may set new values, including the values that have already been cleaned up.
-        bool restart;
-        do
-        {
-            restart = false;
+            // Destroy TLS
             thread_specific_key key = 0;
             void* value = NULL;
             while (at_thread_exit_callback cleanup = extract_value(p, key, value))
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index c1b2c78..cde698c 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -47,7 +47,14 @@ static void tss_cleanup(void* p)
 {
     if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
     {
+#if !defined(BOOST_SYNC_DETAIL_TLS)
+        // Restore the context, which is cleared before calling the destructor, so that it can be used by the functions called at thread exit
+        pthread_setspecific(tss_key, ctx);
+#endif
         tss_mgr->destroy_thread_context(ctx);
+#if !defined(BOOST_SYNC_DETAIL_TLS)
+        pthread_setspecific(tss_key, NULL);
+#endif
     }
 }
 
-- 
2.43.0


From 0be1ca522676e07eb6673eeb8798874deff23831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:57 +0000
Subject: [PATCH 10/15] fix: thread exit functions and thread specific value
 cleanup never run when compiler-supported TLS is used on POSIX

---
 src/tss_pthread.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index cde698c..19c1d8f 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -37,9 +37,9 @@ static pthread_once_t init_tss_once_flag = PTHREAD_ONCE_INIT;
 static tss_manager* tss_mgr = NULL;
 #if defined(BOOST_SYNC_DETAIL_TLS)
 static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
-#else
-static pthread_key_t tss_key;
 #endif
+// The key is needed to perform cleanup at thread exit even if the context is stored in the compiler-supported TLS
+static pthread_key_t tss_key;
 
 extern "C" {
 
@@ -47,13 +47,12 @@ static void tss_cleanup(void* p)
 {
     if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
     {
-#if !defined(BOOST_SYNC_DETAIL_TLS)
         // Restore the context, which is cleared before calling the destructor, so that it can be used by the functions called at thread exit
         pthread_setspecific(tss_key, ctx);
-#endif
         tss_mgr->destroy_thread_context(ctx);
-#if !defined(BOOST_SYNC_DETAIL_TLS)
         pthread_setspecific(tss_key, NULL);
+#if defined(BOOST_SYNC_DETAIL_TLS)
+        tss_context = NULL;
 #endif
     }
 }
@@ -69,10 +68,8 @@ static void init_tss()
         std::abort();
     }
 
-#if !defined(BOOST_SYNC_DETAIL_TLS)
     if (pthread_key_create(&tss_key, &tss_cleanup) != 0)
         std::abort();
-#endif
 }
 
 } // extern "C"
@@ -86,6 +83,7 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
     tss_context = p;
+    pthread_setspecific(tss_key, p);
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
-- 
2.43.0


From 5d007e8934071e82c6a391836717cd2457601d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:58 +0000
Subject: [PATCH 11/15] fix: at_thread_exit and thread_specific_ptr: the thread
 context is lost silently if it cannot be associated with the thread

---
 src/tss_pthread.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 19c1d8f..32e023f 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -21,6 +21,8 @@
 #include <cstdlib>
 #include <pthread.h>
 #include <boost/sync/detail/tss.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
 #include "tss_manager.hpp"
 #include <boost/sync/detail/header.hpp>
@@ -80,10 +82,12 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return tss_context;
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    tss_context = p;
-    pthread_setspecific(tss_key, p);
+    const int res = pthread_setspecific(tss_key, p);
+    if (res == 0)
+        tss_context = p;
+    return res;
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -92,13 +96,26 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    pthread_setspecific(tss_key, p);
+    return pthread_setspecific(tss_key, p);
 }
 
 #endif // defined(BOOST_SYNC_DETAIL_TLS)
 
+inline tss_manager::thread_context* create_thread_context()
+{
+    tss_manager::thread_context* ctx = tss_mgr->create_thread_context();
+    const int res = set_thread_context(ctx);
+    if (BOOST_UNLIKELY(res != 0))
+    {
+        // The context would not be found and destroyed at thread exit
+        tss_mgr->destroy_thread_context(ctx);
+        BOOST_SYNC_DETAIL_THROW(resource_error, (res)("thread-specific storage failed to store the thread context"));
+    }
+    return ctx;
+}
+
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
@@ -107,10 +124,7 @@ BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::conditi
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_notify_at_exit_entry(&mtx, &cond);
 }
@@ -121,10 +135,7 @@ BOOST_SYNC_API void add_thread_exit_callback(at_thread_exit_callback callback, v
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_at_exit_entry(callback, context);
 }
@@ -160,10 +171,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     tss_mgr->set_value(ctx, key, p);
 }
-- 
2.43.0


From 2a0042f697d4fc2be64be677bc1021c7f6150133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 12/15] fix: emulated events and semaphore: waits for a
 duration start over after each spurious wakeup

---
 .../detail/events/auto_reset_event_emulation.hpp     | 12 ++++++++++--
 .../detail/events/manual_reset_event_emulation.hpp   | 12 ++++++++++--
 .../sync/detail/semaphore/semaphore_emulation.hpp    | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 358e368..79e9885 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -13,6 +13,7 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -71,8 +72,15 @@ public:
         return res;
     }
 
-    template< typename Time >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
+    template< typename Duration >
+    typename enable_if< detail::is_time_tag_of< Duration, detail::time_duration_tag >, bool >::type timed_wait(Duration const& duration)
+    {
+        // Convert to an absolute deadline, so that spurious wakeups do not extend the wait
+        return timed_wait(sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(duration));
+    }
+
+    template< typename TimePoint >
+    typename enable_if< detail::is_time_tag_of< TimePoint, detail::time_point_tag >, bool >::type timed_wait(TimePoint const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
         while (!m_is_set)
diff --git a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
index b6183af..afcb7ab 100644
--- a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
@@ -13,6 +13,7 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -72,8 +73,15 @@ public:
         return m_is_set;
     }
 
-    template< typename Time >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
+    template< typename Duration >
+    typename enable_if< detail::is_time_tag_of< Duration, detail::time_duration_tag >, bool >::type timed_wait(Duration const& duration)
+    {
+        // Convert to an absolute deadline, so that spurious wakeups do not extend the wait
+        return timed_wait(sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(duration));
+    }
+
+    template< typename TimePoint >
+    typename enable_if< detail::is_time_tag_of< TimePoint, detail::time_point_tag >, bool >::type timed_wait(TimePoint const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
         while (!m_is_set)
diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index db69570..7bc1016 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -13,6 +13,7 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -67,8 +68,15 @@ public:
         return true;
     }
 
-    template< typename Time >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
+    template< typename Duration >
+    typename enable_if< detail::is_time_tag_of< Duration, detail::time_duration_tag >, bool >::type timed_wait(Duration const& duration)
+    {
+        // Convert to an absolute deadline, so that spurious wakeups do not extend the wait
+        return timed_wait(sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(duration));
+    }
+
+    template< typename TimePoint >
+    typename enable_if< detail::is_time_tag_of< TimePoint, detail::time_point_tag >, bool >::type timed_wait(TimePoint const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
         while (m_count == 0)
-- 
2.43.0


From ccb31c82db832a18a9198b61ab71581dd5556390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 13/15] fix: emulated semaphore: post() at the maximum count
 wrapped to zero and lost all units

---
 include/boost/sync/detail/semaphore/semaphore_emulation.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index 7bc1016..ffd02fc 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -10,10 +10,13 @@
 #ifndef BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 
+#include <limits>
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
 #include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/exceptions/overflow_error.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -45,6 +48,8 @@ public:
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
+        if (BOOST_UNLIKELY(m_count == (std::numeric_limits< unsigned int >::max)()))
+            BOOST_SYNC_DETAIL_THROW_DEFAULT(overflow_error);
         ++m_count;
         m_cond.notify_one();
     }
-- 
2.43.0


From eabe2fcfdeef6324d97ad471cd038474bd555658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 14/15] fix: auto_reset_event on semaphores: a wait given up
 while the event is posted left more than one signal stored

---
 .../events/auto_reset_event_semaphore.hpp     | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index ec8a449..757e782 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -77,8 +77,7 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        return cancel_wait();
     }
 
     template< typename Time >
@@ -90,8 +89,7 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        return cancel_wait();
     }
 
     template< typename Duration >
@@ -106,6 +104,29 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    //! Gives up an unsuccessful wait. Returns \c true if the event has been posted for this waiter in the meantime and the signal is consumed.
+    bool cancel_wait()
+    {
+        for (;;)
+        {
+            int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+            while (old_state > 0)
+            {
+                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                    return false;
+
+                detail::pause();
+            }
+
+            // All waiters have been posted to. The state must not go below that, or a signal more than allowed would be left in the semaphore.
+            if (m_sem.try_wait())
+                return true;
+
+            detail::pause();
+        }
+    }
+
 private:
     semaphore m_sem;
     detail::atomic_ns::atomic< int32_t > m_state;
-- 
2.43.0


From 5ecb2dc45847110e6508b7a81da5ccad39305dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:00 +0000
Subject: [PATCH 15/15] fix: timed_mutex: the mutex is leaked if the
 constructor fails to initialize the condition variable

---
 include/boost/sync/detail/mutexes/timed_mutex_posix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
index 13c0ac4..1c6d9cd 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
@@ -104,7 +104,10 @@ public:
 #if !defined(BOOST_SYNC_DETAIL_PTHREAD_HAS_TIMEDLOCK)
         res = pthread_cond_init(&m_cond, NULL);
         if (BOOST_UNLIKELY(res != 0))
+        {
+            BOOST_VERIFY(sync::detail::posix::pthread_mutex_destroy(&m_mutex) == 0);
             BOOST_SYNC_DETAIL_THROW(resource_error, (res)("timed_mutex constructor failed in pthread_cond_init"));
+        }
         m_is_locked = false;
 #endif
     }
-- 
2.43.0

