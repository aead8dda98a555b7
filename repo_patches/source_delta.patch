From 5ade20a091b4f3dedbe7f6988df5186b7287aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 01/38] fix: wait handler timeouts must not depend on system
 time changes

---
 .../cpp_utils/wait/impl/WaitHandler.ipp       | 24 +++++++++----------
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp | 24 +++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 9636bfa..613365b 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -138,27 +138,27 @@ std::unique_lock<std::mutex> WaitHandler<T>::blocking_wait_(
     // WARNING: mutex must be taken
     threads_waiting_++;
 
-    utils::Timestamp time_to_wait_until;
+    auto awake_condition = [this, predicate]
+            {
+                // Exit if predicate is true or if this has been disabled
+                return !enabled_.load() || predicate(value_);
+            };
 
     // If timeout is 0, use wait, if not use wait for timeout
+    // NOTE: wait_for uses a monotonic clock, so the timeout is not affected by changes in the system time
+    bool finished_for_condition_met = true;
     if (timeout > 0)
     {
-        time_to_wait_until = utils::now() + utils::duration_to_ms(timeout);
+        finished_for_condition_met = wait_condition_variable_.wait_for(
+            lock,
+            utils::duration_to_ms(timeout),
+            awake_condition);
     }
     else
     {
-        time_to_wait_until = utils::the_end_of_time();
+        wait_condition_variable_.wait(lock, awake_condition);
     }
 
-    bool finished_for_condition_met = wait_condition_variable_.wait_until(
-        lock,
-        time_to_wait_until,
-        [this, predicate]
-        {
-            // Exit if predicate is true or if this has been disabled
-            return !enabled_.load() || predicate(value_);
-        });
-
     // Decrement number of threads waiting
     // NOTE: mutex is still taken
     threads_waiting_--;
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 8a7ee17..74f9513 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -78,27 +78,27 @@ AwakeReason CounterWaitHandler::wait_threshold_reached(
     // WARNING: mutex must be taken
     threads_waiting_++;
 
-    utils::Timestamp time_to_wait_until;
+    auto awake_condition = [this]
+            {
+                // Exit if threshold reached or if this has been disabled
+                return !enabled_.load() || (value_ == threshold_);
+            };
 
     // If timeout is 0, use wait, if not use wait for timeout
+    // NOTE: wait_for uses a monotonic clock, so the timeout is not affected by changes in the system time
+    bool finished_for_condition_met = true;
     if (timeout > 0)
     {
-        time_to_wait_until = utils::now() + utils::duration_to_ms(timeout);
+        finished_for_condition_met = threshold_reached_cv_.wait_for(
+            lock,
+            utils::duration_to_ms(timeout),
+            awake_condition);
     }
     else
     {
-        time_to_wait_until = utils::the_end_of_time();
+        threshold_reached_cv_.wait(lock, awake_condition);
     }
 
-    bool finished_for_condition_met = threshold_reached_cv_.wait_until(
-        lock,
-        time_to_wait_until,
-        [this]
-        {
-            // Exit if threshold reached or if this has been disabled
-            return !enabled_.load() || (value_ == threshold_);
-        });
-
     // Decrement number of threads waiting
     // NOTE: mutex is still taken
     threads_waiting_--;
-- 
2.43.0


From ff2367a864d4b1f781b7e7f7af3f6727d9dd15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 02/38] fix: blocking_disable must not return while the last
 waiting thread holds the mutex

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 613365b..1094d9a 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -110,6 +110,10 @@ void WaitHandler<T>::blocking_disable() noexcept
         // Notify in case there are still threads waiting to be awaken
         wait_condition_variable_.notify_all();
     }
+
+    // The last thread that finished may still be holding the mutex: do not return (as this object could be destroyed
+    // afterwards) until it has released it.
+    std::lock_guard<std::mutex> waiters_lock(wait_condition_variable_mutex_);
 }
 
 template <typename T>
-- 
2.43.0


From 24043dc6fece051c6eeebb54d464df725ffd9218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 03/38] fix: stop_and_continue must awake threads still waiting
 in a handler just disabled

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 1094d9a..91c96cb 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -227,10 +227,8 @@ void WaitHandler<T>::stop_and_continue() noexcept
 {
     std::lock_guard<std::recursive_mutex> lock(status_mutex_);
 
-    if (enabled())
-    {
-        blocking_disable();
-    }
+    // Even if it is already disabled, there may be threads waiting that have not been awaken yet
+    blocking_disable();
     enable();
 }
 
-- 
2.43.0


From cb30af0ace4adceeb792326da057cff96d157660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 04/38] fix: disabling a CounterWaitHandler must awake threads
 waiting for the threshold

---
 .../include/cpp_utils/wait/CounterWaitHandler.hpp      |  4 +++-
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp          | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
index f5ea137..a0e04ab 100644
--- a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
@@ -75,12 +75,14 @@ public:
 
     // Make this methods public
     using WaitHandler<CounterType>::enable;
-    using WaitHandler<CounterType>::disable;
     using WaitHandler<CounterType>::blocking_disable;
     using WaitHandler<CounterType>::enabled;
     using WaitHandler<CounterType>::get_value;
     using WaitHandler<CounterType>::stop_and_continue;
 
+    //! Override \c WaitHandler method to also awake the threads waiting for the threshold to be reached
+    CPP_UTILS_DllAPI void disable() noexcept override;
+
     /////
     // Wait methods
 
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 74f9513..86ec15b 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -36,6 +36,16 @@ CounterWaitHandler::CounterWaitHandler(
 
 CounterWaitHandler::~CounterWaitHandler()
 {
+    // Every thread must leave before the internal condition variable is destroyed
+    blocking_disable();
+}
+
+void CounterWaitHandler::disable() noexcept
+{
+    WaitHandler<CounterType>::disable();
+
+    // Awake also threads waiting for the threshold to be reached
+    threshold_reached_cv_.notify_all();
 }
 
 AwakeReason CounterWaitHandler::wait_and_decrement(
-- 
2.43.0


From 7b4d7aee1ea29db8f5419693805db76b31d76b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 05/38] fix: notify threads waiting for the threshold when it
 is reached by an increment

---
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 86ec15b..a4fd8f7 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -143,6 +143,11 @@ CounterWaitHandler& CounterWaitHandler::operator ++()
         {
             wait_condition_variable_.notify_one();
         }
+        // If value has reached the threshold from below, notify threads waiting for this event
+        else if (value_ == threshold_)
+        {
+            threshold_reached_cv_.notify_all();
+        }
     }
 
     return *this;
-- 
2.43.0


From dc9c405e39c5dea629f83928dd2dc80d534d50e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 06/38] fix: an element that could not be taken from a consumer
 handler is still ready to be consumed

---
 .../cpp_utils/wait/impl/ConsumerWaitHandler.ipp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp
index b71813b..dcac2f9 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/ConsumerWaitHandler.ipp
@@ -16,6 +16,7 @@
  */
 
 #include <cpp_utils/exception/DisabledException.hpp>
+#include <cpp_utils/exception/InconsistencyException.hpp>
 #include <cpp_utils/exception/TimeoutException.hpp>
 #include <cpp_utils/Log.hpp>
 
@@ -74,7 +75,21 @@ T ConsumerWaitHandler<T>::consume(
     else
     {
         // This is taken without mutex protection
-        return get_next_value_();
+        try
+        {
+            return get_next_value_();
+        }
+        catch (const utils::InconsistencyException&)
+        {
+            // There is no element to take
+            throw;
+        }
+        catch (...)
+        {
+            // The element could not be taken, so it is still ready to be consumed
+            this->operator ++();
+            throw;
+        }
     }
 }
 
-- 
2.43.0


From 9f5769c30761bc7e60e8175576e803ef30205af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 07/38] fix: wait_for_event must decide its result before
 releasing the mutex

---
 cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
index 275a077..5d826cf 100644
--- a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
@@ -121,10 +121,10 @@ template <typename ... Args>
 bool EventHandler<Args...>::wait_for_event(
         uint32_t n /*= 1*/) const noexcept
 {
+    std::unique_lock<std::mutex> lock(wait_mutex_);
+
     if (is_callback_set_.load())
     {
-        std::unique_lock<std::mutex> lock(wait_mutex_);
-
         ++threads_waiting_;
 
         wait_condition_variable_.wait(
@@ -140,7 +140,8 @@ bool EventHandler<Args...>::wait_for_event(
     }
 
     // Return true if the condition has been fulfilled. It could stop due to an unset callback
-    // Note: number_of_events_registered_ does not required a mutex because it is being read and it is atomic
+    // Note: mutex is still taken, so the counter could not have changed since the wait has finished, neither this object
+    // could have been destroyed
     return number_of_events_registered_.load() >= n;
 }
 
-- 
2.43.0


From 5f6f534a3b28506b8448c3d655aa534115716741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 08/38] fix: a signal whose notification is missed must still
 be handled

---
 cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index 224e644..552d3a8 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <algorithm>
+#include <chrono>
 #include <thread>
 
 #include <cpp_utils/exception/InconsistencyException.hpp>
@@ -156,8 +157,12 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
     while (!signal_handler_thread_stop_.load())
     {
         std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);
-        signal_received_cv_.wait(
+        // As the mutex cannot be taken in the signal handler, a notification may be missed (the signal may arrive right
+        // after the condition has been checked), thus it is required to check periodically whether there are signals
+        // not handled yet.
+        signal_received_cv_.wait_for(
             lock,
+            std::chrono::milliseconds(100),
             [this]
             {
                 return signals_received_.load() > 0 ||
-- 
2.43.0


From 5479c932fb3e74c670dbd98cd472f1cd0d7ff2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 09/38] fix: a LogEventHandler must not be destroyed while an
 entry is being consumed

---
 cpp_utils/src/cpp/event/logging/LogEventHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 029d2e6..801c0b0 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -52,6 +52,10 @@ LogEventHandler::LogEventHandler(
 LogEventHandler::~LogEventHandler()
 {
     unset_callback();
+
+    // Release the callback before any other member is destroyed, as the logging thread could be consuming an entry.
+    // It waits for that thread to finish, and from here on no entry could reach this object.
+    connection_callback_.reset();
 }
 
 void LogEventHandler::consume_(
-- 
2.43.0


From feb70b19a724227d3e138a3b4826c93b1c1f1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 10/38] fix: a LogSevereEventHandler must not let pass entries
 below its threshold while created or destroyed

---
 .../include/cpp_utils/event/LogSevereEventHandler.hpp |  7 +++++++
 cpp_utils/src/cpp/event/logging/LogEventHandler.cpp   |  6 +++++-
 .../src/cpp/event/logging/LogSevereEventHandler.cpp   | 11 ++++++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
index a3e6f61..39352d6 100644
--- a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
@@ -48,6 +48,13 @@ public:
             std::function<void(utils::Log::Entry)> callback,
             const utils::Log::Kind threshold = utils::Log::Kind::Warning);
 
+    /**
+     * @brief Destroy the LogSevereEventHandler object
+     *
+     * Entries are no longer consumed from here on.
+     */
+    CPP_UTILS_DllAPI ~LogSevereEventHandler();
+
 protected:
 
     //! Override parent \c consume_ method but only consuming logs above the \c threshold_ kind.
diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 801c0b0..8f49f4b 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -34,7 +34,11 @@ LogEventHandler::LogEventHandler()
             [this]
                 (const utils::Log::Entry& entry)
             {
-                this->consume_(entry);
+                // Without callback there is nothing to do (and child classes could be still in construction)
+                if (is_callback_set_.load())
+                {
+                    this->consume_(entry);
+                }
             }))
 {
     // Create LogConsumer and register it
diff --git a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
index 8b14501..c13e7c1 100644
--- a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
@@ -26,9 +26,12 @@ namespace event {
 LogSevereEventHandler::LogSevereEventHandler(
         std::function<void(utils::Log::Entry)> callback,
         utils::Log::Kind threshold /* = utils::Log::Kind::Warning */)
-    : LogEventHandler(callback)
+    : LogEventHandler()
     , threshold_(threshold)
 {
+    // Set callback once the threshold is set, so no entry is consumed without being filtered
+    set_callback(callback);
+
     // If threshold is lower than default log level (ERROR) set the filter lower
     if (threshold > utils::Log::Kind::Error)
     {
@@ -36,6 +39,12 @@ LogSevereEventHandler::LogSevereEventHandler(
     }
 }
 
+LogSevereEventHandler::~LogSevereEventHandler()
+{
+    // Release the callback while this class still exists, so no entry is consumed without being filtered
+    connection_callback_.reset();
+}
+
 void LogSevereEventHandler::consume_(
         const utils::Log::Entry& entry)
 {
-- 
2.43.0


From 107b038cc2bb88f66615c47fda0aa7e818d5fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 11/38] fix: move assignment of a GuardedPtr must release the
 data guarded before

---
 .../cpp_utils/memory/impl/GuardedPtr.hpp      |  4 ++--
 .../cpp_utils/memory/impl/GuardedPtr.ipp      | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
index 239dc42..b7c13e4 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
@@ -63,9 +63,9 @@ public:
     GuardedPtr(
             GuardedPtr&&) noexcept = default;
 
-    //! Move operator not allowed
+    //! Move operator. It unlocks the shared mutex of the data guarded so far (if any)
     GuardedPtr<T>& operator =(
-            GuardedPtr<T>&& other) noexcept = default;
+            GuardedPtr<T>&& other) noexcept;
 
     //! Unlock the shared mutex
     ~GuardedPtr();
diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
index fd54366..682d449 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
@@ -31,6 +31,25 @@ GuardedPtr<T>::GuardedPtr(
     // Do nothing
 }
 
+template<typename T>
+GuardedPtr<T>& GuardedPtr<T>::operator =(
+        GuardedPtr<T>&& other) noexcept
+{
+    if (this != &other)
+    {
+        // Release the data guarded so far, if any
+        if (data_reference_)
+        {
+            data_reference_->unlock_shared();
+        }
+
+        data_reference_ = std::move(other.data_reference_);
+        // Move a shared ptr reset the internal ptr, so other points to null and will not unlock
+    }
+
+    return *this;
+}
+
 template<typename T>
 GuardedPtr<T>::~GuardedPtr()
 {
-- 
2.43.0


From 13afbc5ba1b3c1a2ea146c3040b93bb1a1f800a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 12/38] fix: checking whether a lessee is valid while its owner
 destroys the data is a data race

---
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp | 5 +++--
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
index c921b84..29bbf26 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <shared_mutex>
@@ -125,8 +126,8 @@ protected:
     // INTERNAL VARIABLES
     ////////////////////////////
 
-    //! Pointer to the internal data
-    T* reference_;
+    //! Pointer to the internal data. Atomic because its validity could be checked while it is being destroyed.
+    std::atomic<T*> reference_;
 
     //! Mutex to guard the data while using or destroying it
     mutable std::shared_timed_mutex shared_mutex_;
diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
index 9dc8815..d56671e 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
@@ -37,7 +37,7 @@ InternalPtrData<T>::InternalPtrData() noexcept
 template<typename T>
 InternalPtrData<T>::InternalPtrData(
         InternalPtrData&& other) noexcept
-    : reference_(std::move(other.reference_))
+    : reference_(other.reference_.load())
     , shared_mutex_(std::move(other.shared_mutex_))
     , deleter_(std::move(other.deleter_))
 {
@@ -79,7 +79,7 @@ T* InternalPtrData<T>::operator ->() const noexcept
 template<typename T>
 T& InternalPtrData<T>::operator *() const noexcept
 {
-    return *reference_;
+    return *reference_.load();
 }
 
 template<typename T>
-- 
2.43.0


From e13add162a6c2d3ba3a6318aa50d1397aec591d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 13/38] fix: data accessed by LesseePtr::operator-> must not be
 destroyed while used

---
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp | 4 ++--
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
index cc1141d..fa167f1 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
@@ -115,11 +115,11 @@ public:
      * This operator will acces the internal data if this still exist, and lock it while using.
      * If the data do not further exist, it will raise an exception.
      *
-     * @return Internal data ptr
+     * @return Guard of the internal data, that locks it until the end of the expression where this is used
      *
      * @throw ValueAccessException in case internal data no longer exists.
      */
-    T* operator ->() const;
+    GuardedPtr<T> operator ->() const;
 
     /**
      * @brief Access operator to internal ptr with exception calls in failure cases.
diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
index 7e61dca..545a796 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
@@ -39,9 +39,10 @@ LesseePtr<T>::LesseePtr(
 ///////////////////////
 
 template<typename T>
-T* LesseePtr<T>::operator ->() const
+GuardedPtr<T> LesseePtr<T>::operator ->() const
 {
-    return this->lock_with_exception().operator ->();
+    // The guard must exist while the data is being used
+    return this->lock_with_exception();
 }
 
 template<typename T>
-- 
2.43.0


From b6a9e7d992893d2e698ed2bf015ae760997f4466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 14/38] fix: a copied SafeDatabaseIterator must keep the
 database locked

---
 .../cpp_utils/collection/database/SafeDatabase.hpp       | 4 ++++
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp  | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
index 63a7c0f..98f0e49 100644
--- a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
@@ -54,6 +54,10 @@ public:
             typename std::map<Key, Value>::const_iterator it,
             std::shared_timed_mutex& mutex);
 
+    //! Copy constructor. The new iterator also keeps the database shared locked.
+    SafeDatabaseIterator(
+            const SafeDatabaseIterator& other);
+
     ~SafeDatabaseIterator();
 
 private:
diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index e1b837e..85eea7d 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -28,6 +28,15 @@ SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
     mutex_.lock_shared();
 }
 
+template <typename Key, typename Value>
+SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
+        const SafeDatabaseIterator& other)
+    : std::map<Key, Value>::const_iterator(other)
+    , mutex_(other.mutex_)
+{
+    mutex_.lock_shared();
+}
+
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value>::~SafeDatabaseIterator()
 {
-- 
2.43.0


From 599bd7e457cdef68c074cf79e04938aef1d240a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 15/38] fix: begin and end of a SafeDatabase must lock it
 before reading, and find must lock it once

---
 .../collection/database/SafeDatabase.hpp      |  6 +++++
 .../collection/database/impl/SafeDatabase.ipp | 23 +++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
index 98f0e49..4dff592 100644
--- a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
@@ -50,6 +50,12 @@ class SafeDatabaseIterator : public std::map<Key, Value>::const_iterator
 {
 public:
 
+    /**
+     * @brief Construct an iterator of a database already shared locked
+     *
+     * @param it internal iterator, obtained while \c mutex was shared locked
+     * @param mutex database mutex, already shared locked by the caller. This object will unlock it in destruction.
+     */
     SafeDatabaseIterator(
             typename std::map<Key, Value>::const_iterator it,
             std::shared_timed_mutex& mutex);
diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index 85eea7d..8add1e7 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -25,7 +25,7 @@ SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
     : std::map<Key, Value>::const_iterator(it)
     , mutex_(mutex)
 {
-    mutex_.lock_shared();
+    // Mutex is already shared locked
 }
 
 template <typename Key, typename Value>
@@ -95,21 +95,34 @@ template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::find(
         const Key& key) const
 {
-    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+    std::shared_lock<std::shared_timed_mutex> lock(mutex_);
+    auto it = internal_db_.find(key);
 
-    return SafeDatabaseIterator<Key, Value>(internal_db_.find(key), mutex_);
+    // From here the iterator is the one that keeps the mutex locked
+    lock.release();
+    return SafeDatabaseIterator<Key, Value>(it, mutex_);
 }
 
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::begin() const
 {
-    return SafeDatabaseIterator<Key, Value>(internal_db_.begin(), mutex_);
+    std::shared_lock<std::shared_timed_mutex> lock(mutex_);
+    auto it = internal_db_.begin();
+
+    // From here the iterator is the one that keeps the mutex locked
+    lock.release();
+    return SafeDatabaseIterator<Key, Value>(it, mutex_);
 }
 
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::end() const
 {
-    return SafeDatabaseIterator<Key, Value>(internal_db_.end(), mutex_);
+    std::shared_lock<std::shared_timed_mutex> lock(mutex_);
+    auto it = internal_db_.end();
+
+    // From here the iterator is the one that keeps the mutex locked
+    lock.release();
+    return SafeDatabaseIterator<Key, Value>(it, mutex_);
 }
 
 template <typename Key, typename Value>
-- 
2.43.0


From ad4e9c79cece0fee363856161645c14a90ac5bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 16/38] fix: a SlotThreadPool enabled again must execute tasks

---
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 10ad615..be90df4 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -51,6 +51,9 @@ void SlotThreadPool::enable() noexcept
 {
     if (!enabled_.exchange(true))
     {
+        // The queue may have been disabled by a previous disable
+        task_queue_.enable();
+
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
         {
-- 
2.43.0


From 2cc7fb6f0ba043baaaa022c79186ccab03aa0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 17/38] fix: enabling and disabling a SlotThreadPool
 concurrently must be safe

---
 .../include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp     | 3 +++
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp         | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp b/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
index aaef0ca..566dc5b 100644
--- a/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
+++ b/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
@@ -158,6 +158,9 @@ protected:
      */
     std::vector<CustomThread> threads_;
 
+    //! Protects the creation and destruction of \c threads_ , so the pool could be enabled and disabled concurrently
+    std::mutex threads_mutex_;
+
     /**
      * @brief Map of tasks indexed by their task Id.
      *
diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index be90df4..5e86479 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -49,6 +49,8 @@ SlotThreadPool::~SlotThreadPool()
 
 void SlotThreadPool::enable() noexcept
 {
+    std::lock_guard<std::mutex> lock(threads_mutex_);
+
     if (!enabled_.exchange(true))
     {
         // The queue may have been disabled by a previous disable
@@ -66,6 +68,8 @@ void SlotThreadPool::enable() noexcept
 
 void SlotThreadPool::disable() noexcept
 {
+    std::lock_guard<std::mutex> lock(threads_mutex_);
+
     if (enabled_.exchange(false))
     {
         // Disable Task Queue, so threads will stop eventually when their current task is finished
-- 
2.43.0


From 81f7db90c4b3c6fc9dbb97580e9711634bec63eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 18/38] fix: wait_all_consumed of a SlotThreadPool must wait
 until the tasks have been executed

---
 .../thread_pool/pool/SlotThreadPool.hpp       |  4 ++++
 .../cpp/thread_pool/pool/SlotThreadPool.cpp   | 21 +++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp b/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
index 566dc5b..9881942 100644
--- a/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
+++ b/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
@@ -29,6 +29,7 @@
 #include <cpp_utils/thread_pool/task/TaskId.hpp>
 #include <cpp_utils/thread_pool/thread/CustomThread.hpp>
 #include <cpp_utils/wait/DBQueueWaitHandler.hpp>
+#include <cpp_utils/wait/IntWaitHandler.hpp>
 
 namespace eprosima {
 namespace utils {
@@ -150,6 +151,9 @@ protected:
      */
     utils::event::DBQueueWaitHandler<TaskId> task_queue_;
 
+    //! Number of tasks emitted whose execution has not finished yet
+    utils::event::IntWaitHandler pending_tasks_;
+
     /**
      * @brief Threads container
      *
diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 5e86479..084b73d 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -30,6 +30,7 @@ namespace utils {
 SlotThreadPool::SlotThreadPool(
         const uint32_t n_threads)
     : number_of_threads_(n_threads)
+    , pending_tasks_(0)
     , enabled_(false)
 {
     logDebug(UTILS_THREAD_POOL, "Creating Thread Pool with " << n_threads << " threads.");
@@ -40,6 +41,7 @@ SlotThreadPool::~SlotThreadPool()
     disable();
     // Disable queue in case it has not been stopped yet.
     task_queue_.disable();
+    pending_tasks_.disable();
 
     for (auto& thread : threads_)
     {
@@ -55,6 +57,7 @@ void SlotThreadPool::enable() noexcept
     {
         // The queue may have been disabled by a previous disable
         task_queue_.enable();
+        pending_tasks_.enable();
 
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
@@ -74,6 +77,7 @@ void SlotThreadPool::disable() noexcept
     {
         // Disable Task Queue, so threads will stop eventually when their current task is finished
         task_queue_.disable();
+        pending_tasks_.disable();
 
         for (auto& thread : threads_)
         {
@@ -98,7 +102,18 @@ void SlotThreadPool::emit(
     }
     else
     {
-        task_queue_.produce(it->first);
+        // The task is pending until it has been executed
+        ++pending_tasks_;
+
+        try
+        {
+            task_queue_.produce(it->first);
+        }
+        catch (...)
+        {
+            --pending_tasks_;
+            throw;
+        }
     }
 }
 
@@ -124,7 +139,7 @@ void SlotThreadPool::slot(
 utils::event::AwakeReason SlotThreadPool::wait_all_consumed(
         const utils::Duration_ms& timeout /* = 0 */)
 {
-    return task_queue_.wait_all_consumed(timeout);
+    return pending_tasks_.wait_equal(0, timeout);
 }
 
 void SlotThreadPool::thread_routine_()
@@ -154,6 +169,8 @@ void SlotThreadPool::thread_routine_()
 
             logDebug(UTILS_THREAD_POOL, "Thread: " << std::this_thread::get_id() << " executing callback.");
             task();
+
+            --pending_tasks_;
         }
     }
     catch (const utils::DisabledException& e)
-- 
2.43.0


From b20f31aac2990a736fe8f8cf987ee94712872a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 19/38] fix: an UnboundedPool must keep the elements created
 when creating further ones fails

---
 cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp b/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
index cfb0317..80bc566 100644
--- a/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
+++ b/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
@@ -109,12 +109,16 @@ template <typename T>
 void UnboundedPool<T>::augment_free_values_(
         unsigned int new_values_count)
 {
+    // Allocate the space first, so an element already created could not be lost afterwards
+    this->elements_.reserve(this->elements_.size() + new_values_count);
+
     for (unsigned int i = 0; i < new_values_count; ++i)
     {
         auto new_element = this->new_element_();
         this->elements_.push_back(new_element);
+        // Count each element, as creating the next one may fail
+        ++reserved_;
     }
-    reserved_ += new_values_count;
     logDebug(
         LIMITLESS_POOL,
         "Pool " << TYPE_NAME(T) << " [" << this << "] augmented in "
-- 
2.43.0


From f80bfe738314ee4304cbbf6508065c48121f27a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 20/38] fix: the time measured by a Timer must not depend on
 system time changes

---
 cpp_utils/include/cpp_utils/time/Timer.hpp | 2 +-
 cpp_utils/src/cpp/time/Timer.cpp           | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/time/Timer.hpp b/cpp_utils/include/cpp_utils/time/Timer.hpp
index d956cad..52ad75c 100644
--- a/cpp_utils/include/cpp_utils/time/Timer.hpp
+++ b/cpp_utils/include/cpp_utils/time/Timer.hpp
@@ -59,7 +59,7 @@ public:
 protected:
 
     //! Time when the object has been created OR when last reset has been called.
-    std::chrono::time_point<std::chrono::high_resolution_clock> start_time_;
+    std::chrono::time_point<std::chrono::steady_clock> start_time_;
 };
 
 } /* namespace utils */
diff --git a/cpp_utils/src/cpp/time/Timer.cpp b/cpp_utils/src/cpp/time/Timer.cpp
index e8f6dc7..e487832 100644
--- a/cpp_utils/src/cpp/time/Timer.cpp
+++ b/cpp_utils/src/cpp/time/Timer.cpp
@@ -23,18 +23,18 @@ namespace eprosima {
 namespace utils {
 
 Timer::Timer() noexcept
-    : start_time_(std::chrono::high_resolution_clock::now())
+    : start_time_(std::chrono::steady_clock::now())
 {
 }
 
 void Timer::reset() noexcept
 {
-    start_time_ = std::chrono::high_resolution_clock::now();
+    start_time_ = std::chrono::steady_clock::now();
 }
 
 double Timer::elapsed() const noexcept
 {
-    return std::chrono::duration<double, std::milli>(std::chrono::high_resolution_clock::now() - start_time_).count();
+    return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - start_time_).count();
 }
 
 Duration_ms Timer::elapsed_ms() const noexcept
-- 
2.43.0


From cdefd05ff94d7e111a7fa55e604fafc5fc51b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 21/38] fix: converting a Timestamp from several threads must
 not share a buffer

---
 cpp_utils/src/cpp/time/time_utils.cpp | 46 +++++++++++++++++++--------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 77a5e02..87c7a93 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -35,6 +35,32 @@
 namespace eprosima {
 namespace utils {
 
+namespace {
+
+/**
+ * Thread safe version of \c std::gmtime and \c std::localtime , that return a pointer to a buffer shared by every thread.
+ *
+ * @return whether \c time could be converted to \c tm
+ */
+bool time_to_tm(
+        const time_t& time,
+        bool local_time,
+        std::tm& tm) noexcept
+{
+#if _EPROSIMA_WINDOWS_PLATFORM
+    return 0 == (local_time ? localtime_s(&tm, &time) : gmtime_s(&tm, &time));
+#else
+    if (local_time)
+    {
+        // Unlike localtime, localtime_r is not required to update the time zone
+        tzset();
+    }
+    return nullptr != (local_time ? localtime_r(&time, &tm) : gmtime_r(&time, &tm));
+#endif // if _EPROSIMA_WINDOWS_PLATFORM
+}
+
+} /* namespace */
+
 Timestamp now() noexcept
 {
     return Timeclock::now();
@@ -75,11 +101,11 @@ Timestamp time_to_timestamp(
         unsigned int minute /* = 0 */,
         unsigned int second /* = 0 */)
 {
-    std::tm tm;
+    std::tm tm{};
 
     // Initialise with current timestamp to set date
     time_t duration_seconds = normalize(Timeclock::to_time_t(now()));
-    tm = *std::gmtime(&duration_seconds);
+    time_to_tm(duration_seconds, false, tm);
 
     tm.tm_sec = static_cast<int>(second);
     tm.tm_min = static_cast<int>(minute);
@@ -96,23 +122,15 @@ std::string timestamp_to_string(
     std::ostringstream ss;
     time_t duration_seconds = normalize(Timeclock::to_time_t(timestamp));
 
-    std::tm* tm = nullptr;
-    if (local_time)
-    {
-        tm = std::localtime(&duration_seconds);
-    }
-    else
-    {
-        tm = std::gmtime(&duration_seconds);
-    }
+    std::tm tm{};
 
-    if (tm)
+    if (time_to_tm(duration_seconds, local_time, tm))
     {
-        ss << std::put_time(tm, format.c_str());
+        ss << std::put_time(&tm, format.c_str());
     }
     else
     {
-        // gmtime/localtime() returned null
+        // The time could not be converted
         throw PreconditionNotMet(STR_ENTRY << "Format <" << format << "> to convert Timestamp to string is incorrect.");
     }
     return ss.str();
-- 
2.43.0


From a84e53d90e1a89380346ee5b4dc3aae118e76d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 22/38] fix: asking for the next command of an empty history
 must not move out of it

---
 cpp_utils/src/cpp/history/CommandHistoryHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
index dc0475f..cf4f93f 100644
--- a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
+++ b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
@@ -45,6 +45,11 @@ std::string CommandHistoryHandler::get_previous_command()
 
 std::string CommandHistoryHandler::get_next_command()
 {
+    if (command_history_.empty())
+    {
+        return "";
+    }
+
     if (current_index_ < command_history_.size() - 1)
     {
         ++current_index_;
-- 
2.43.0


From 230fab8e76c7df193f7ad98bd97b003a96033bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 23/38] fix: reading commands without a terminal of known width
 must not divide by zero

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 0f03e18..fc27e3b 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -59,7 +59,11 @@ int get_terminal_width()
     return csbi.srWindow.Right - csbi.srWindow.Left + 1;
     #else
     struct winsize w;
-    ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
+    if (ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) != 0 || w.ws_col == 0)
+    {
+        // Not a terminal, or a terminal that does not know its size
+        return 80;
+    }
     return w.ws_col;
     #endif // if defined(_WIN32) || defined(_WIN64)
 }
-- 
2.43.0


From 5262ab9bb23c900670267bd5b1f4130bdd2deb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 24/38] fix: the end of the standard input must finish reading
 instead of adding characters forever

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index fc27e3b..44cd361 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -273,8 +273,10 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
 {
     set_terminal_mode_(true);
 
+    bool end_of_input = false;
+
     auto awake_reason = activation_times_.wait_and_decrement();
-    while (awake_reason == AwakeReason::condition_met)
+    while (awake_reason == AwakeReason::condition_met && !end_of_input)
     {
         std::string read_str;
         size_t cursor_index = 0;
@@ -304,8 +306,18 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                 {
                     case 72:  // Arrow up
 #else
-            char c;
+            int c;
             c = getchar(); // Read first character
+            if (c == EOF)
+            {
+                // There is nothing else to read, so finish the line in process (if any) and do not read any more
+                end_of_input = true;
+                if (read_str.empty())
+                {
+                    break;
+                }
+                c = '\n';
+            }
             if (c == '\033')
             {
                 getchar(); // Ignore next character '['
@@ -567,7 +579,10 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
             }
         }
 
-        awake_reason = activation_times_.wait_and_decrement();
+        if (!end_of_input)
+        {
+            awake_reason = activation_times_.wait_and_decrement();
+        }
     }
 
     set_terminal_mode_(false);
-- 
2.43.0


From 17c8836284b39ba62e859d8ce22879de0e3ec136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 25/38] fix: a quoted argument of a command may start with a
 space

---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 3260a5d..4d6f552 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -66,7 +66,7 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
 
             // Keep joining until we find a string ending with a quote
             while (i + 1 < input.size() &&
-                    (joined.empty() || joined.back() != '"'))
+                    (joined.size() < 2 || joined.back() != '"'))
             {
                 joined += " " + input[++i];
             }
-- 
2.43.0


From fd710871c6762768d32b1cebeef286084a84b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 26/38] fix: a file that cannot be watched must not keep a
 descriptor open

---
 thirdparty/filewatch/FileWatch.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index f8b62d5..4777112 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -523,7 +523,15 @@ private:
         }
         // const auto listen_filters = _listen_filters;  // Unused variable
 
-        _watching_single_file = is_file(path);
+        try
+        {
+            _watching_single_file = is_file(path);
+        }
+        catch (...)
+        {
+            close(folder);
+            throw;
+        }
 
         const T watch_path = [this, &path]()
                 {
@@ -543,7 +551,9 @@ private:
         const auto watch = inotify_add_watch(folder, watch_path.c_str(), IN_MODIFY | IN_CREATE | IN_DELETE);
         if (watch < 0)
         {
-            throw std::system_error(errno, std::system_category());
+            const auto error = errno;
+            close(folder);
+            throw std::system_error(error, std::system_category());
         }
         return { folder, watch };
     }
-- 
2.43.0


From cdd52f512e3ba78cb40d87b45b2e1dcef2a1521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 27/38] fix: destroying a file watcher must not miss the
 notification to its callback thread

---
 thirdparty/filewatch/FileWatch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index 4777112..df1d0f1 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -266,7 +266,11 @@ private:
 
     void destroy()
     {
-        _destory = true;
+        {
+            // Protected by the mutex so the callback thread does not miss the notification between checking it and waiting
+            std::lock_guard<std::mutex> lock(_callback_mutex);
+            _destory = true;
+        }
         _running = std::promise<void>();
 #ifdef _WIN32
         SetEvent(_close_event);
-- 
2.43.0


From 875e97e3830019af43de676120fe05e0dbe49a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 28/38] fix: blocking_disable of a python WaitHandler must let
 the waiting threads finish

---
 py_utils/py_utils/wait/WaitHandler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 75df6cb..0a85938 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -136,6 +136,9 @@ class WaitHandler:
                 timeout)
 
             self._n_waiting_threads -= 1
+            if self._n_waiting_threads == 0:
+                # Notify possible threads in a blocking disable
+                self._condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
@@ -158,9 +161,9 @@ class WaitHandler:
     # Blocking disable method
     def _blocking_disable_nts(self):
         """Blocking disable object. Not mutex safe, call with _lock taken."""
-        self._enabled = False
-        while self._n_waiting_threads > 0:
-            self._condition.notify_all()
+        self._disable_nts()
+        # The lock is released while waiting, otherwise the waiting threads could not finish
+        self._condition.wait_for(lambda: self._n_waiting_threads == 0)
 
     # Blocking disable method
     def _enabled_nts(self):
-- 
2.43.0


From 6882061e476e7d6e58c6b69bf96bcdd8cf451dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 29/38] fix: a predicate that raises must not leave a thread
 counted as waiting in a python WaitHandler

---
 py_utils/py_utils/wait/WaitHandler.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 0a85938..8070d22 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -131,14 +131,16 @@ class WaitHandler:
 
             self._n_waiting_threads += 1
 
-            awaken_reason = self._condition.wait_for(
-                lambda: not self._enabled_nts() or predicate(self._value),
-                timeout)
-
-            self._n_waiting_threads -= 1
-            if self._n_waiting_threads == 0:
-                # Notify possible threads in a blocking disable
-                self._condition.notify_all()
+            try:
+                awaken_reason = self._condition.wait_for(
+                    lambda: not self._enabled_nts() or predicate(self._value),
+                    timeout)
+            finally:
+                # The predicate may raise an exception
+                self._n_waiting_threads -= 1
+                if self._n_waiting_threads == 0:
+                    # Notify possible threads in a blocking disable
+                    self._condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
-- 
2.43.0


From c94fba632a0b93188c8b56b5e749dfeae6ae9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 30/38] fix: the time measured by a python Timer must not
 depend on system time changes

---
 py_utils/py_utils/time/Timer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py_utils/py_utils/time/Timer.py b/py_utils/py_utils/time/Timer.py
index 71e7af8..70a8724 100644
--- a/py_utils/py_utils/time/Timer.py
+++ b/py_utils/py_utils/time/Timer.py
@@ -24,7 +24,7 @@ class Timer:
     A simple timer class for measuring elapsed time.
 
     Attributes:
-        _start_time (float): The start time of the timer in seconds since the epoch.
+        _start_time (float): The start time of the timer in seconds of a monotonic clock.
 
     NOTE: Chat GPT has written all this (including tests (⊙_⊙) )
     """
@@ -33,13 +33,13 @@ class Timer:
         """
         Initializes a new Timer instance and sets the start time to the current time.
         """
-        self._start_time = time.time()
+        self._start_time = time.monotonic()
 
     def reset(self):
         """
         Resets the timer by setting the start time to the current time.
         """
-        self._start_time = time.time()
+        self._start_time = time.monotonic()
 
     def elapsed(self):
         """
@@ -48,4 +48,4 @@ class Timer:
         Returns:
             float: The elapsed time in seconds.
         """
-        return time.time() - self._start_time
+        return time.monotonic() - self._start_time
-- 
2.43.0


From 081c51a7d825c270e1eaa082494e57e0d1dfab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 31/38] fix: a file that fails while being read must not be
 taken as a shorter one

---
 cpp_utils/src/cpp/file/file_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp_utils/src/cpp/file/file_utils.cpp b/cpp_utils/src/cpp/file/file_utils.cpp
index 62ed79e..a3fedab 100644
--- a/cpp_utils/src/cpp/file/file_utils.cpp
+++ b/cpp_utils/src/cpp/file/file_utils.cpp
@@ -71,6 +71,13 @@ std::vector<std::string> file_to_strings(
         }
     }
 
+    // The loop also finishes if the file fails before its end
+    if (file.bad())
+    {
+        throw PreconditionNotMet(
+                  STR_ENTRY << "File <" << file_name << "> could not be completely read.");
+    }
+
     return result;
 }
 
-- 
2.43.0


From 79c8c2daca8399608394960a32aded0ae1f44192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 32/38] fix: the second before the epoch is a valid date to
 read

---
 cpp_utils/src/cpp/time/time_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 87c7a93..dc4245a 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -152,6 +152,8 @@ Timestamp string_to_timestamp(
     }
 
     std::time_t utc_time;
+    // The conversion sets the day of the week only if it succeeds (the value it returns on error is also a valid time)
+    tm.tm_wday = -1;
     if (local_time)
     {
         // Attempt to automatically determine if DST in effect
@@ -170,7 +172,7 @@ Timestamp string_to_timestamp(
         utc_time = timegm(&tm);
     }
 
-    if ((time_t)-1 == utc_time)
+    if (tm.tm_wday < 0)
     {
         throw ValueNotAllowedException(
                   STR_ENTRY << "Failed to convert string to timestamp");
-- 
2.43.0


From dd5161e726f65625da0e72b3bbac02553a735649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 33/38] fix: setting the format of a python CustomLogger must
 not write each entry once more

---
 py_utils/py_utils/logging/log_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index 7e64123..304aa33 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -40,6 +40,8 @@ class CustomLogger(logging.Logger):
             logger_name: str = 'GLOBAL_LOG'):
         """Creates an object of Logger class and set log level and default format."""
         super().__init__(logger_name)
+        self.l_handler = logging.StreamHandler()
+        self.addHandler(self.l_handler)
         self.set_format()
         self.set_log_level(log_level)
 
@@ -48,9 +50,7 @@ class CustomLogger(logging.Logger):
             format: str = '[%(asctime)s][%(name)s][%(levelname)s] %(message)s'):
         """Modifies format for logger."""
         l_format = logging.Formatter(format)
-        l_handler = logging.StreamHandler()
-        l_handler.setFormatter(l_format)
-        self.addHandler(l_handler)
+        self.l_handler.setFormatter(l_format)
 
     def set_log_level(
             self,
-- 
2.43.0


From 6b85573b3ecf5ece72e95b2610ffd258ad80f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 34/38] fix: a change of the level of a python CustomLogger
 must apply to levels used before

---
 py_utils/py_utils/logging/log_utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index 304aa33..371cf3f 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -58,6 +58,16 @@ class CustomLogger(logging.Logger):
         """Modifies logger level."""
         self.setLevel(log_level)
 
+    def isEnabledFor(
+            self,
+            level):
+        """
+        Whether an entry of this level would be logged.
+
+        The native method remembers its result, and only the loggers created by getLogger forget it when a level changes.
+        """
+        return not self.disabled and self.manager.disable < level and level >= self.getEffectiveLevel()
+
     def activate_debug(self):
         """Modifies logger level so it accepts everything equalt or greater than DEBUG."""
         self.set_log_level(logging.DEBUG)
-- 
2.43.0


From db0bbef3ec8ebcb985a7f53edeac0d53d6d51fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 35/38] fix: looking for commands in the history erased lines
 above the one being typed

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 88 +++++--------------
 1 file changed, 24 insertions(+), 64 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 44cd361..5ec2f60 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -77,19 +77,6 @@ int compute_lines_needed(
     return (total_length + term_width - 1) / term_width;
 }
 
-void clear_lines(
-        int line_count)
-{
-    for (int i = 0; i < line_count; ++i)
-    {
-        std::cout << "\033[2K\r"; // Clear current line
-        if (i < line_count - 1)
-        {
-            std::cout << "\033[1A"; // Move up (not after last line)
-        }
-    }
-}
-
 void update_line(
         const std::string& prompt,
         std::string& line,
@@ -329,13 +316,12 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                         std::string prev_command = history_handler_.get_previous_command();
                         if (!prev_command.empty())
                         {
-                            std::string prompt = ">> ";
-                            int term_width = get_terminal_width();
-                            int lines = compute_lines_needed(prompt, read_str, term_width);
-                            clear_lines(lines);
-                            read_str = prev_command;
-                            cursor_index = read_str.size();
-                            std::cout << "\033[38;5;82m" << prompt << "\033[0m" << read_str << std::flush;
+                            update_line(">> ", read_str, cursor_index,
+                                    [&prev_command](std::string& line, size_t& index)
+                                    {
+                                        line = prev_command;
+                                        index = line.size();
+                                    });
                         }
 
                         break;
@@ -348,27 +334,12 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
 #endif // if defined(_WIN32) || defined(_WIN64)
                     {
                         std::string next_command = history_handler_.get_next_command();
-                        if (!next_command.empty())
-                        {
-                            std::string prompt = ">> ";
-                            int term_width = get_terminal_width();
-                            int lines = compute_lines_needed(prompt, read_str, term_width);
-                            clear_lines(lines);
-                            read_str = next_command;
-                            cursor_index = read_str.size();
-                            std::cout << "\033[38;5;82m" << prompt << "\033[0m" << read_str << std::flush;
-                        }
-                        else
-                        {
-                            std::string prompt = ">> ";
-                            int term_width = get_terminal_width();
-                            int lines = compute_lines_needed(prompt, read_str, term_width);
-                            clear_lines(lines);
-
-                            read_str = "";
-                            cursor_index = 0;
-                            std::cout << "\033[38;5;82m" << prompt << "\033[0m" << std::flush;
-                        }
+                        update_line(">> ", read_str, cursor_index,
+                                [&next_command](std::string& line, size_t& index)
+                                {
+                                    line = next_command;
+                                    index = line.size();
+                                });
 
                         break;
                     }
@@ -457,13 +428,12 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                             std::string prev = history_handler_.get_previous_command();
                             if (!prev.empty())
                             {
-                                std::string prompt = ">> ";
-                                int term_width = get_terminal_width();
-                                int lines = compute_lines_needed(prompt, read_str, term_width);
-                                clear_lines(lines);
-                                read_str = prev;
-                                cursor_index = read_str.size();
-                                std::cout << "\033[38;5;82m" << prompt << "\033[0m" << read_str << std::flush;
+                                update_line(">> ", read_str, cursor_index,
+                                        [&prev](std::string& line, size_t& index)
+                                        {
+                                            line = prev;
+                                            index = line.size();
+                                        });
                             }
                         }
                         break;
@@ -479,22 +449,12 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                         if (consume_tilde_if_present())
                         {
                             std::string next = history_handler_.get_next_command();
-                            std::string prompt = ">> ";
-                            int term_width = get_terminal_width();
-                            int lines = compute_lines_needed(prompt, read_str, term_width);
-                            clear_lines(lines);
-                            if (!next.empty())
-                            {
-                                read_str = next;
-                                cursor_index = read_str.size();
-                                std::cout << "\033[38;5;82m" << prompt << "\033[0m" << read_str << std::flush;
-                            }
-                            else
-                            {
-                                read_str.clear();
-                                cursor_index = 0;
-                                std::cout << "\033[38;5;82m" << prompt << "\033[0m" << std::flush;
-                            }
+                            update_line(">> ", read_str, cursor_index,
+                                    [&next](std::string& line, size_t& index)
+                                    {
+                                        line = next;
+                                        index = line.size();
+                                    });
                         }
                         break;
                     }
-- 
2.43.0


From 208d5f16ddef3f7a56988bcecf8f70ebea7d8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 36/38] fix: the cursor was shown in a wrong line when the text
 typed fills the last one

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 5ec2f60..dfabdcd 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -73,8 +73,9 @@ int compute_lines_needed(
         const std::string& cmd,
         int term_width)
 {
+    // The cursor may be after the last character
     int total_length = static_cast<int>(prompt.size() + cmd.size());
-    return (total_length + term_width - 1) / term_width;
+    return total_length / term_width + 1;
 }
 
 void update_line(
@@ -134,8 +135,7 @@ void update_line(
     }
 
     // Remove the old line
-    std::string full_line_before = prompt + old_line;
-    int old_lines = (static_cast<int>(full_line_before.size()) + term_width - 1) / term_width;
+    int old_lines = compute_lines_needed(prompt, old_line, term_width);
 
     // Move to the line where the cursor was
     // Calculate the absolute cursor position
@@ -159,10 +159,15 @@ void update_line(
 
     // Print the new line
     std::cout << "\033[38;5;82m" << prompt << "\033[0m" << line << std::flush;
+    if ((prompt.size() + line.size()) % term_width == 0)
+    {
+        // The last line is full, so the place after the last character is in a new one
+        std::cout << "\r\n";
+    }
 
     // Position the cursor
     int abs_cursor = static_cast<int>(prompt.size() + cursor_index);
-    int total_lines = (static_cast<int>(prompt.size() + line.size()) + term_width - 1) / term_width;
+    int total_lines = compute_lines_needed(prompt, line, term_width);
     int cursor_line = abs_cursor / term_width;
     int cursor_col = abs_cursor % term_width;
 
-- 
2.43.0


From d591de57cc20f73a2e793a67172daa3b72668b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 37/38] fix: a line ended with the cursor inside it was
 overwritten by what came next

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index dfabdcd..f97a826 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -186,6 +186,17 @@ void update_line(
     std::cout.flush();
 }
 
+void move_cursor_to_end(
+        std::string& line,
+        size_t& cursor_index)
+{
+    update_line(">> ", line, cursor_index,
+            [](std::string& line, size_t& index)
+            {
+                index = line.size();
+            });
+}
+
 StdinEventHandler::StdinEventHandler(
         std::function<void(std::string)> callback,
         const bool read_lines /* = true */,
@@ -495,6 +506,8 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
             }
             else if (c == '\n' || c == '\r')
             {
+                // What comes next must be below the line, wherever the cursor was
+                move_cursor_to_end(read_str, cursor_index);
                 std::cout << std::endl;
                 event_occurred_(read_str);
 
@@ -525,6 +538,8 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
             }
             else if (c == '\x03') // Ctrl+C
             {
+                // What comes next must be below the line, wherever the cursor was
+                move_cursor_to_end(read_str, cursor_index);
                 std::cout << std::endl;
                 event_occurred_("");
                 read_str = "";
-- 
2.43.0


From 55b8ecbd5633e2d46d19624cdb591423a408e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 38/38] fix: destroying a FileWatch hung when the directory of
 the file had been removed

---
 thirdparty/filewatch/FileWatch.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index df1d0f1..c40c06d 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -566,8 +566,10 @@ private:
     {
         std::vector<char> buffer(_buffer_size);
 
+        bool watching = true;
+
         _running.set_value();
-        while (_destory == false)
+        while (_destory == false && watching)
         {
             const auto length = read(_directory.folder, static_cast<void*>(buffer.data()), buffer.size());
             if (length > 0)
@@ -577,6 +579,11 @@ private:
                 while (i < length)
                 {
                     struct inotify_event* event = reinterpret_cast<struct inotify_event*>(&buffer[i]);      // NOLINT
+                    if (event->mask & IN_IGNORED)
+                    {
+                        // The directory is not watched any more (it may have been removed), so nothing else would be read
+                        watching = false;
+                    }
                     if (event->len)
                     {
                         const UnderpinningString changed_file{ event->name };
-- 
2.43.0

