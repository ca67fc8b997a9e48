From 78f88f1681a70987c797ddf305634893a833a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 01/36] fix: concat no longer loses an inner observable
 arriving while the previous one completes in another thread

---
 src/rpp/rpp/operators/concat.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rpp/rpp/operators/concat.hpp b/src/rpp/rpp/operators/concat.hpp
index 0537253..a76c7a2 100644
--- a/src/rpp/rpp/operators/concat.hpp
+++ b/src/rpp/rpp/operators/concat.hpp
@@ -58,7 +58,6 @@ namespace rpp::operators::details
                 const auto observable = get_observable();
                 if (!observable)
                 {
-                    stage().store(ConcatStage::None, std::memory_order::relaxed);
                     refcounted.dispose();
                     if (m_disposable->is_disposed())
                         get_observer()->on_completed();
@@ -95,7 +94,11 @@ namespace rpp::operators::details
         {
             auto queue = get_queue();
             if (queue->empty())
+            {
+                // under lock of queue to not lose observable pushed after check for emptiness
+                stage().store(ConcatStage::None, std::memory_order::seq_cst);
                 return std::nullopt;
+            }
             auto observable = queue->front();
             queue->pop();
             return observable;
@@ -174,11 +177,16 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            ConcatStage current = ConcatStage::None;
-            if (base::state->stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
-                base::state->handle_observable(std::forward<T>(v), base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
-            else
-                base::state->get_queue()->push(std::forward<T>(v));
+            {
+                auto        queue   = base::state->get_queue();
+                ConcatStage current = ConcatStage::None;
+                if (!base::state->stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
+                {
+                    queue->push(std::forward<T>(v));
+                    return;
+                }
+            }
+            base::state->handle_observable(std::forward<T>(v), base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
         }
 
         void on_completed() const
-- 
2.43.0


From fcecd922e11db54afd8bc731d34857cd998d8beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 02/36] fix: switch_on_next drops in-flight emission of
 replaced observable

---
 src/rpp/rpp/operators/switch_on_next.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/operators/switch_on_next.hpp b/src/rpp/rpp/operators/switch_on_next.hpp
index 5a578b0..949066b 100644
--- a/src/rpp/rpp/operators/switch_on_next.hpp
+++ b/src/rpp/rpp/operators/switch_on_next.hpp
@@ -57,12 +57,17 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            m_state->get_observer()->on_next(std::forward<T>(v));
+            const auto observer = m_state->get_observer();
+            // checked under lock: emission of replaced observable must not come after emissions of newer one
+            if (!m_refcounted.is_disposed())
+                observer->on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
-            m_state->get_observer()->on_error(err);
+            const auto observer = m_state->get_observer();
+            if (!m_refcounted.is_disposed())
+                observer->on_error(err);
         }
 
         void on_completed() const
-- 
2.43.0


From e7837c02bba71a5180fa96a6b21d04f8c32e71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:51 +0000
Subject: [PATCH 03/36] fix: subject does not destroy other observers under its
 own lock when an observer leaves

---
 src/rpp/rpp/subjects/details/subject_state.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 12969ff..7eccd5e 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -55,10 +55,12 @@ namespace rpp::subjects::details
             {
                 if (const auto shared = m_state.lock())
                 {
+                    // old observers have to be destroyed after unlock: destroying of last reference to another (disposed) observer can lead to the same lock
+                    state_t          old_state{};
                     std::unique_lock lock{shared->m_mutex};
                     process_state_unsafe(shared->m_state,
                                          [&](const shared_observers& observers) {
-                                             shared->m_state = cleanup_observers(observers, this);
+                                             old_state = std::exchange(shared->m_state, cleanup_observers(observers, this));
                                          });
                 }
             }
-- 
2.43.0


From 2aba0241dc1f79ade21339cd10b67b237d9dbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:50 +0000
Subject: [PATCH 04/36] fix: subject survives reallocation of its observers
 container caused by subscription during on_next

---
 src/rpp/rpp/subjects/details/subject_state.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 7eccd5e..347df21 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -20,7 +20,8 @@
 #include <rpp/utils/utils.hpp>
 
 #include <algorithm>
-#include <deque>
+#include <iterator>
+#include <list>
 #include <memory>
 #include <mutex>
 #include <variant>
@@ -69,7 +70,7 @@ namespace rpp::subjects::details
         };
 
         using observer         = std::shared_ptr<rpp::details::observers::observer_vtable<Type>>;
-        using observers        = std::deque<observer>;
+        using observers        = std::list<observer>;
         using shared_observers = std::shared_ptr<observers>;
         using state_t          = std::variant<shared_observers, std::exception_ptr, completed, disposed>;
 
@@ -118,18 +119,21 @@ namespace rpp::subjects::details
             if (!std::holds_alternative<shared_observers>(m_state))
                 return;
 
-            // we are getting copy of curent deque and obtaining CURRENT begin/end of in case of some new observer would be added during on_next call
+            // we are getting copy of curent list and obtaining CURRENT first/last observers in case of some new observer would be added during on_next call
             const auto observers = std::get<shared_observers>(m_state);
-            if (!observers)
+            if (!observers || observers->empty())
                 return;
 
-            const auto begin = observers->cbegin();
-            const auto end   = observers->cend();
+            auto       itr  = observers->cbegin();
+            const auto last = std::prev(observers->cend());
 
             observers_lock.unlock();
 
             std::lock_guard lock{m_serialized_mutex};
-            std::for_each(begin, end, [&](const observer& obs) { obs->on_next(v); });
+            // iterators of list are stable in case of adding of new observers, but nothing after `last` can be accessed
+            for (; itr != last; ++itr)
+                (*itr)->on_next(v);
+            (*last)->on_next(v);
         }
 
         void on_error(const std::exception_ptr& err)
-- 
2.43.0


From 2603c00140e1db6ba1136b8875922138e7aa8e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:42 +0000
Subject: [PATCH 05/36] fix: behavior/replay subjects remember values in the
 same order as they emit them

---
 src/rpp/rpp/subjects/behavior_subject.hpp      |  3 +--
 src/rpp/rpp/subjects/details/subject_state.hpp | 12 +++++++++++-
 src/rpp/rpp/subjects/replay_subject.hpp        |  3 +--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rpp/rpp/subjects/behavior_subject.hpp b/src/rpp/rpp/subjects/behavior_subject.hpp
index 3ab5dc9..07e069b 100644
--- a/src/rpp/rpp/subjects/behavior_subject.hpp
+++ b/src/rpp/rpp/subjects/behavior_subject.hpp
@@ -54,8 +54,7 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
-                *state->get_value() = v;
-                state->on_next(v);
+                state->on_next(v, [&] { *state->get_value() = v; });
             }
 
             void on_error(const std::exception_ptr& err) const { state->on_error(err); }
diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 347df21..f79aa07 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -114,6 +114,17 @@ namespace rpp::subjects::details
 
         void on_next(const Type& v)
         {
+            on_next(v, rpp::utils::empty_function_t<>{});
+        }
+
+        /**
+         * @param before_emission would be invoked before emission of value but in the same order with emissions of other values (in case of serialized)
+         */
+        void on_next(const Type& v, const std::invocable auto& before_emission)
+        {
+            std::lock_guard lock{m_serialized_mutex};
+            before_emission();
+
             std::unique_lock observers_lock{m_mutex};
 
             if (!std::holds_alternative<shared_observers>(m_state))
@@ -129,7 +140,6 @@ namespace rpp::subjects::details
 
             observers_lock.unlock();
 
-            std::lock_guard lock{m_serialized_mutex};
             // iterators of list are stable in case of adding of new observers, but nothing after `last` can be accessed
             for (; itr != last; ++itr)
                 (*itr)->on_next(v);
diff --git a/src/rpp/rpp/subjects/replay_subject.hpp b/src/rpp/rpp/subjects/replay_subject.hpp
index a4a549d..c32c273 100644
--- a/src/rpp/rpp/subjects/replay_subject.hpp
+++ b/src/rpp/rpp/subjects/replay_subject.hpp
@@ -94,8 +94,7 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
-                state->add_value(v);
-                state->on_next(v);
+                state->on_next(v, [&] { state->add_value(v); });
             }
 
             void on_error(const std::exception_ptr& err) const { state->on_error(err); }
-- 
2.43.0


From f5072520341fa1a4c10a891b02f0bbf7449d3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0000
Subject: [PATCH 06/36] fix: subject registers observer only after it knows its
 upstream

---
 .../rpp/subjects/details/subject_state.hpp    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index f79aa07..926025e 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -82,12 +82,18 @@ namespace rpp::subjects::details
         template<rpp::constraint::observer_of_type<Type> TObs>
         void on_subscribe(TObs&& observer)
         {
+            auto       d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
+            const auto ptr = d.lock();
+            // upstream has to be set before publishing of observer: after it observer can be used from another thread
+            ptr->set_upstream(d.as_weak());
+
             std::unique_lock lock{m_mutex};
             process_state_unsafe(
                 m_state,
                 [&](const shared_observers& observers) {
-                    auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
-                    auto ptr = d.lock();
+                    if (d.is_disposed())
+                        return;
+
                     if (!observers)
                     {
                         auto new_observers = std::make_shared<subject_state::observers>();
@@ -98,17 +104,14 @@ namespace rpp::subjects::details
                     {
                         observers->emplace_back(ptr);
                     }
-
-                    lock.unlock();
-                    ptr->set_upstream(d.as_weak());
                 },
-                [&](const std::exception_ptr& err) {
+                [&](std::exception_ptr err) {
                     lock.unlock();
-                    observer.on_error(err);
+                    ptr->on_error(err);
                 },
                 [&](completed) {
                     lock.unlock();
-                    observer.on_completed();
+                    ptr->on_completed();
                 });
         }
 
-- 
2.43.0


From 6863f196b34ec4bf213c9f35ff5ab01b9ccf280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:44 +0000
Subject: [PATCH 07/36] fix: serialized behavior/replay subjects do not lose or
 repeat values for observer subscribing during emission

---
 src/rpp/rpp/subjects/behavior_subject.hpp      | 13 +++++++------
 src/rpp/rpp/subjects/details/subject_state.hpp | 18 +++++++++++++++---
 src/rpp/rpp/subjects/replay_subject.hpp        |  7 ++++---
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/rpp/rpp/subjects/behavior_subject.hpp b/src/rpp/rpp/subjects/behavior_subject.hpp
index 07e069b..fb182a8 100644
--- a/src/rpp/rpp/subjects/behavior_subject.hpp
+++ b/src/rpp/rpp/subjects/behavior_subject.hpp
@@ -84,12 +84,13 @@ namespace rpp::subjects::details
         {
             return create_subject_on_subscribe_observable<Type, expected_disposable_strategy>([state = m_state]<rpp::constraint::observer_of_type<Type> TObs>(TObs&& observer) {
                 const auto locked = state.lock();
-                if (!locked->is_disposed())
-                {
-                    auto v = *locked->get_value();
-                    observer.on_next(std::move(v));
-                }
-                locked->on_subscribe(std::forward<TObs>(observer));
+                locked->on_subscribe(std::forward<TObs>(observer), [&locked](const auto& obs) {
+                    if (!locked->is_disposed())
+                    {
+                        auto v = *locked->get_value();
+                        obs.on_next(std::move(v));
+                    }
+                });
             });
         }
 
diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 926025e..2cc88f0 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -115,6 +115,17 @@ namespace rpp::subjects::details
                 });
         }
 
+        /**
+         * @param replay would be invoked with observer before actual subscription of it: there are no emissions between replay and subscription (in case of serialized)
+         */
+        template<rpp::constraint::observer_of_type<Type> TObs>
+        void on_subscribe(TObs&& observer, const std::invocable<const std::decay_t<TObs>&> auto& replay)
+        {
+            std::lock_guard lock{m_serialized_mutex};
+            replay(observer);
+            on_subscribe(std::forward<TObs>(observer));
+        }
+
         void on_next(const Type& v)
         {
             on_next(v, rpp::utils::empty_function_t<>{});
@@ -206,8 +217,9 @@ namespace rpp::subjects::details
         }
 
     private:
-        state_t                                                                                  m_state;
-        std::mutex                                                                               m_mutex{};
-        RPP_NO_UNIQUE_ADDRESS std::conditional_t<Serialized, std::mutex, rpp::utils::none_mutex> m_serialized_mutex{};
+        state_t    m_state;
+        std::mutex m_mutex{};
+        // recursive: observer can subscribe to the same subject from inside of emission/replay
+        RPP_NO_UNIQUE_ADDRESS std::conditional_t<Serialized, std::recursive_mutex, rpp::utils::none_mutex> m_serialized_mutex{};
     };
 } // namespace rpp::subjects::details
diff --git a/src/rpp/rpp/subjects/replay_subject.hpp b/src/rpp/rpp/subjects/replay_subject.hpp
index c32c273..cb4919d 100644
--- a/src/rpp/rpp/subjects/replay_subject.hpp
+++ b/src/rpp/rpp/subjects/replay_subject.hpp
@@ -129,9 +129,10 @@ namespace rpp::subjects::details
         {
             return create_subject_on_subscribe_observable<Type, expected_disposable_strategy>([state = m_state]<rpp::constraint::observer_of_type<Type> TObs>(TObs&& observer) {
                 const auto locked = state.lock();
-                for (auto&& value : locked->get_actual_values())
-                    observer.on_next(std::move(value.value));
-                locked->on_subscribe(std::forward<TObs>(observer));
+                locked->on_subscribe(std::forward<TObs>(observer), [&locked](const auto& obs) {
+                    for (auto&& value : locked->get_actual_values())
+                        obs.on_next(std::move(value.value));
+                });
             });
         }
 
-- 
2.43.0


From e25bcf4fbf7ce543f0b9ce95f34503974c2aa6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 08/36] fix: thread_pool picks worker atomically

---
 src/rpp/rpp/schedulers/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/thread_pool.hpp b/src/rpp/rpp/schedulers/thread_pool.hpp
index 906733d..3d9edd4 100644
--- a/src/rpp/rpp/schedulers/thread_pool.hpp
+++ b/src/rpp/rpp/schedulers/thread_pool.hpp
@@ -14,6 +14,7 @@
 
 #include <rpp/schedulers/new_thread.hpp>
 
+#include <atomic>
 #include <vector>
 
 namespace rpp::schedulers
@@ -84,7 +85,7 @@ namespace rpp::schedulers
 
         private:
             std::vector<original_worker> m_workers{};
-            size_t                       m_index{};
+            std::atomic<size_t>          m_index{};
         };
 
         std::shared_ptr<state> m_state{};
-- 
2.43.0


From d821bb640d5911275c9b447c22d080bb25a19aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 09/36] fix: observe_on does not forward error while another
 thread is inside of observer

---
 src/rpp/rpp/operators/delay.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/delay.hpp b/src/rpp/rpp/operators/delay.hpp
index 612df5c..c70fbcf 100644
--- a/src/rpp/rpp/operators/delay.hpp
+++ b/src/rpp/rpp/operators/delay.hpp
@@ -53,6 +53,7 @@ namespace rpp::operators::details
         std::mutex              mutex{};
         std::queue<emission<T>> queue;
         bool                    is_active{};
+        bool                    is_emitting{};
     };
 
     template<rpp::constraint::observer Observer, typename Worker>
@@ -116,7 +117,11 @@ namespace rpp::operators::details
             if constexpr (ClearOnError && rpp::constraint::decayed_same_as<std::exception_ptr, TT>)
             {
                 state->queue = std::queue<emission<rpp::utils::extract_observer_type_t<Observer>>>{};
-                state->observer.on_error(std::forward<TT>(item));
+                // error can't be forwarded while another thread is inside of observer: in this case it would be forwarded right after it
+                if (state->is_emitting)
+                    state->queue.emplace(std::forward<TT>(item), state->worker.now());
+                else
+                    state->observer.on_error(std::forward<TT>(item));
                 return std::nullopt;
             }
             else
@@ -137,6 +142,7 @@ namespace rpp::operators::details
             while (true)
             {
                 std::unique_lock lock{state->mutex};
+                state->is_emitting = false;
                 if (state->queue.empty())
                 {
                     state->is_active = false;
@@ -149,6 +155,7 @@ namespace rpp::operators::details
 
                 auto item = std::move(top.value);
                 state->queue.pop();
+                state->is_emitting = true;
                 lock.unlock();
 
                 std::visit(rpp::utils::overloaded{[&](rpp::utils::extract_observer_type_t<Observer>&& v) { state->observer.on_next(std::move(v)); },
-- 
2.43.0


From eb5b04c286c69b2318e99895366c02a76d6d816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:52 +0000
Subject: [PATCH 10/36] fix: debounce does not lose pending value when
 completion happens while worker is emitting it

---
 src/rpp/rpp/operators/debounce.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index 0bb9c12..cade767 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -47,13 +47,16 @@ namespace rpp::operators::details
         template<typename TT>
         void emplace_safe(TT&& v)
         {
-            std::lock_guard lock{m_mutex};
+            std::unique_lock lock{m_mutex};
             m_value_to_be_emitted.emplace(std::forward<TT>(v));
             const bool need_to_scheduled        = !m_time_when_value_should_be_emitted.has_value();
-            m_time_when_value_should_be_emitted = m_worker.now() + m_period;
+            const auto time                     = m_worker.now() + m_period;
+            m_time_when_value_should_be_emitted = time;
+            lock.unlock(); // scheduler can execute schedulable in place
+
             if (need_to_scheduled)
             {
-                schedule();
+                schedule(time);
             }
         }
 
@@ -66,17 +69,19 @@ namespace rpp::operators::details
         rpp::utils::pointer_under_lock<Observer> get_observer_under_lock() { return m_observer; }
 
     private:
-        void schedule()
+        void schedule(rpp::schedulers::time_point time)
         {
             m_worker.schedule(
-                m_time_when_value_should_be_emitted.value(),
+                time,
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
-                    auto value_or_duration = handler.state->extract_value_or_time();
+                    // value extracted and emitted under same lock to avoid completion in the middle
+                    const auto observer          = handler.state->get_observer_under_lock();
+                    auto       value_or_duration = handler.state->extract_value_or_time();
                     if (auto* timepoint = std::get_if<schedulers::time_point>(&value_or_duration))
                         return schedulers::optional_delay_to{*timepoint};
 
                     if (auto* value = std::get_if<T>(&value_or_duration))
-                        handler.state->get_observer_under_lock()->on_next(std::move(*value));
+                        observer->on_next(std::move(*value));
 
                     return std::nullopt;
                 },
-- 
2.43.0


From 12bdf83ff6a690b35a4c5ca09668de65ccea3511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:52 +0000
Subject: [PATCH 11/36] fix: timeout does not touch observer moved to fallback

---
 src/rpp/rpp/operators/timeout.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpp/rpp/operators/timeout.hpp b/src/rpp/rpp/operators/timeout.hpp
index 4d2ce27..ec62a9f 100644
--- a/src/rpp/rpp/operators/timeout.hpp
+++ b/src/rpp/rpp/operators/timeout.hpp
@@ -82,6 +82,9 @@ namespace rpp::operators::details
         void on_next(T&& v) const
         {
             auto obs_with_timeout = disposable->get_observer_with_timeout_under_lock();
+            if (disposable->is_disposed()) // observer already moved to fallback
+                return;
+
             obs_with_timeout->observer.on_next(std::forward<T>(v));
             obs_with_timeout->timeout = rpp::schedulers::utils::get_worker_t<TScheduler>::now() + disposable->get_period();
         }
-- 
2.43.0


From 39925bd8aceb1e46e208a1c050727fa8246aa078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:52 +0000
Subject: [PATCH 12/36] fix: window_toggle closes window under lock

---
 src/rpp/rpp/operators/window_toggle.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rpp/rpp/operators/window_toggle.hpp b/src/rpp/rpp/operators/window_toggle.hpp
index c51d918..587b58c 100644
--- a/src/rpp/rpp/operators/window_toggle.hpp
+++ b/src/rpp/rpp/operators/window_toggle.hpp
@@ -98,11 +98,13 @@ namespace rpp::operators::details
         {
             disposable->remove(this_disposable);
 
-            itr->on_completed();
+            decltype(TState::state_t::observers) closed{};
+            {
+                auto locked_state = state->get_state_under_lock();
+                itr->on_completed();
+                closed.splice(closed.cend(), locked_state->observers, itr);
+            }
             this_disposable.dispose();
-
-            auto locked_state = state->get_state_under_lock();
-            locked_state->observers.erase(itr);
         }
 
         void set_upstream(const disposable_wrapper& d) const { this_disposable.add(d); }
-- 
2.43.0


From f7b7f6f21d93d1ad489af03500df9103d1a485f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:08 +0000
Subject: [PATCH 13/36] fix: current_thread repeats from previous timepoint and
 does not run task disposed while waiting

---
 src/rpp/rpp/schedulers/current_thread.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index bf2c9ef..9195535 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -110,7 +110,9 @@ namespace rpp::schedulers
                 if (top->is_disposed())
                     continue;
 
-                details::sleep_until(top->get_timepoint());
+                // can be disposed from another thread while we are waiting
+                if (details::sleep_until(top->get_timepoint()) && top->is_disposed())
+                    continue;
 
                 while (true)
                 {
@@ -126,8 +128,13 @@ namespace rpp::schedulers
                                 }
                                 else
                                 {
-                                    details::sleep_until(top->handle_advanced_call(res.value()));
+                                    const auto tp = top->handle_advanced_call(res.value());
+                                    details::sleep_until(tp);
+                                    top->set_timepoint(tp);
                                 }
+
+                                if (top->is_disposed())
+                                    break;
                                 continue;
                             }
                             const auto tp = top->handle_advanced_call(res.value());
-- 
2.43.0


From 28865705b6ddd3c2d990f026e31e2abca8aafa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:08 +0000
Subject: [PATCH 14/36] fix: new_thread does not starve tasks scheduled via
 current_thread from inside of repeating task

---
 src/rpp/rpp/schedulers/details/queue.hpp | 5 +++++
 src/rpp/rpp/schedulers/new_thread.hpp    | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/details/queue.hpp b/src/rpp/rpp/schedulers/details/queue.hpp
index d2578e4..596e039 100644
--- a/src/rpp/rpp/schedulers/details/queue.hpp
+++ b/src/rpp/rpp/schedulers/details/queue.hpp
@@ -19,6 +19,7 @@
 
 #include "rpp/utils/functors.hpp"
 
+#include <atomic>
 #include <condition_variable>
 #include <exception>
 #include <memory>
@@ -199,6 +200,7 @@ namespace rpp::schedulers::details
     {
         std::condition_variable_any cv{};
         std::recursive_mutex        mutex{};
+        std::atomic_bool            has_fresh_data{false};
     };
 
     template<typename NowStrategy>
@@ -259,6 +261,9 @@ namespace rpp::schedulers::details
             optional_mutex<std::recursive_mutex> mutex{s ? &s->mutex : nullptr};
             std::lock_guard                      lock{mutex};
 
+            if (s)
+                s->has_fresh_data.store(true);
+
             if (!m_head || schedulable->get_timepoint() < m_head->get_timepoint())
             {
                 schedulable->set_next(std::move(m_head));
diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index 5cefa7e..d454a48 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -51,7 +51,6 @@ namespace rpp::schedulers
             void defer_to(time_point time_point, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 m_state->queue.emplace(time_point, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
-                m_state->has_fresh_data.store(true);
             }
 
         private:
@@ -59,7 +58,6 @@ namespace rpp::schedulers
             {
                 details::schedulables_queue<current_thread::worker_strategy> queue{};
                 bool                                                         is_stoping{};
-                std::atomic_bool                                             has_fresh_data{false};
             };
 
             static void data_thread(std::shared_ptr<queue_data> state)
-- 
2.43.0


From 68f18163b5a3cb7c61dd72d3cc959e99716ff17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 15/36] fix: new_thread wakes up for earlier schedulable added
 while sleeping

---
 src/rpp/rpp/schedulers/new_thread.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index d454a48..1878bfc 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -83,9 +83,11 @@ namespace rpp::schedulers
 
                     if (details::s_last_now_time < state->queue.top()->get_timepoint())
                     {
-                        if (const auto now = worker_strategy::now(); now < state->queue.top()->get_timepoint())
+                        const auto timepoint = state->queue.top()->get_timepoint();
+                        if (const auto now = worker_strategy::now(); now < timepoint)
                         {
-                            state->cv.wait_for(lock, state->queue.top()->get_timepoint() - now, [&] { return state->queue.top()->is_disposed() || worker_strategy::now() >= state->queue.top()->get_timepoint(); });
+                            // wake up also if some earlier schedulable added
+                            state->cv.wait_for(lock, timepoint - now, [&] { return state->queue.top()->is_disposed() || state->queue.top()->get_timepoint() < timepoint || worker_strategy::now() >= timepoint; });
                             continue;
                         }
                     }
-- 
2.43.0


From d4cf446025ef3d9905c3a47fbe3c9b49b1c002c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 16/36] fix: run_loop sleeps till timepoint of next schedulable
 instead of spinning under lock

---
 src/rpp/rpp/schedulers/run_loop.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/run_loop.hpp b/src/rpp/rpp/schedulers/run_loop.hpp
index b8fa1ff..64426ad 100644
--- a/src/rpp/rpp/schedulers/run_loop.hpp
+++ b/src/rpp/rpp/schedulers/run_loop.hpp
@@ -66,7 +66,8 @@ namespace rpp::schedulers
                     if (!wait)
                         break;
 
-                    m_cv.wait_for(lock, m_queue.top()->get_timepoint() - now, [&]() { return is_disposed() || !m_queue.is_empty() || m_queue.top()->get_timepoint() <= worker_strategy::now(); });
+                    const auto timepoint = m_queue.top()->get_timepoint();
+                    m_cv.wait_for(lock, timepoint - now, [&]() { return is_disposed() || m_queue.is_empty() || m_queue.top()->is_disposed() || m_queue.top()->get_timepoint() < timepoint; });
                 }
                 return {};
             }
-- 
2.43.0


From 0599a6bb3a3e7b5e482f7b09c4a0a0c03c7c0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 17/36] fix: on_error_resume_next leaves failed observable
 before switching to the next one

---
 .../rpp/operators/on_error_resume_next.hpp    | 48 +++++++++++++------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/rpp/rpp/operators/on_error_resume_next.hpp b/src/rpp/rpp/operators/on_error_resume_next.hpp
index 4426cc2..0fa59c0 100644
--- a/src/rpp/rpp/operators/on_error_resume_next.hpp
+++ b/src/rpp/rpp/operators/on_error_resume_next.hpp
@@ -17,32 +17,45 @@
 
 namespace rpp::operators::details
 {
+    template<rpp::constraint::observer TObserver>
+    struct on_error_resume_next_state final
+    {
+        explicit on_error_resume_next_state(TObserver&& in_observer)
+            : observer(std::move(in_observer))
+        {
+            observer.set_upstream(disposable);
+        }
+
+        RPP_NO_UNIQUE_ADDRESS TObserver   observer;
+        rpp::composite_disposable_wrapper disposable = composite_disposable_wrapper::make();
+    };
+
     template<rpp::constraint::observer TObserver>
     struct on_error_resume_next_inner_observer_strategy
     {
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
-        std::shared_ptr<TObserver> observer;
+        std::shared_ptr<on_error_resume_next_state<TObserver>> state;
 
         template<typename T>
         void on_next(T&& v) const
         {
-            observer->on_next(std::forward<T>(v));
+            state->observer.on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
-            observer->on_error(err);
+            state->observer.on_error(err);
         }
 
         void on_completed() const
         {
-            observer->on_completed();
+            state->observer.on_completed();
         }
 
-        void set_upstream(const disposable_wrapper& d) { observer->set_upstream(d); }
+        void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return observer->is_disposed(); }
+        bool is_disposed() const { return state->disposable.is_disposed(); }
     };
 
 
@@ -52,43 +65,48 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         on_error_resume_next_observer_strategy(TObserver&& observer, const Selector& selector)
-            : state{std::make_shared<TObserver>(std::move(observer))}
+            : state{std::make_shared<on_error_resume_next_state<TObserver>>(std::move(observer))}
             , selector{selector}
         {
         }
 
-        std::shared_ptr<TObserver>     state;
-        RPP_NO_UNIQUE_ADDRESS Selector selector;
+        std::shared_ptr<on_error_resume_next_state<TObserver>> state;
+        RPP_NO_UNIQUE_ADDRESS Selector                         selector;
+        mutable bool                                           locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
         {
-            state->on_next(std::forward<T>(v));
+            state->observer.on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
+            locally_disposed = true;
+            state->disposable.clear();
+
             try
             {
                 selector(err).subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
             }
             catch (...)
             {
-                state->on_error(std::current_exception());
+                state->observer.on_error(std::current_exception());
             }
         }
 
         void on_completed() const
         {
-            state->on_completed();
+            locally_disposed = true;
+            state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) const
         {
-            state->set_upstream(d);
+            state->disposable.add(d);
         }
 
-        bool is_disposed() const { return state->is_disposed(); }
+        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::decayed_type Selector>
@@ -113,7 +131,7 @@ namespace rpp::operators::details
         };
 
         template<rpp::details::observables::constraint::disposable_strategy Prev>
-        using updated_disposable_strategy = rpp::details::observables::default_disposable_strategy_selector;
+        using updated_disposable_strategy = rpp::details::observables::fixed_disposable_strategy_selector<1>;
     };
 } // namespace rpp::operators::details
 
-- 
2.43.0


From 76af3eb47243b0b8cde814032c6c271e9d5d32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 18/36] fix: retry_when leaves failed observable before waiting
 for notifier

---
 src/rpp/rpp/operators/retry_when.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/retry_when.hpp b/src/rpp/rpp/operators/retry_when.hpp
index ef9f28a..f8060e5 100644
--- a/src/rpp/rpp/operators/retry_when.hpp
+++ b/src/rpp/rpp/operators/retry_when.hpp
@@ -92,6 +92,7 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_when_state<TObserver, TObservable, TNotifier>> state;
+        mutable bool                                                         locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -101,6 +102,9 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
+            locally_disposed = true;
+            state->disposable.clear();
+
             try
             {
                 state->notifier(err).subscribe(retry_when_impl_inner_strategy<TObserver, TObservable, TNotifier>{state});
@@ -113,12 +117,13 @@ namespace rpp::operators::details
 
         void on_completed() const
         {
+            locally_disposed = true;
             state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, typename TObservable, typename TNotifier>
-- 
2.43.0


From 7dd8c18a648e80be273eedbfcbfcca568dd62c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:12 +0000
Subject: [PATCH 19/36] fix: group_by compares keys via provided comparator

---
 src/rpp/rpp/operators/group_by.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/group_by.hpp b/src/rpp/rpp/operators/group_by.hpp
index 1e6cccb..6e2e105 100644
--- a/src/rpp/rpp/operators/group_by.hpp
+++ b/src/rpp/rpp/operators/group_by.hpp
@@ -73,7 +73,7 @@ namespace rpp::operators::details
 
         using subject_observer = decltype(std::declval<subjects::publish_subject<Type>>().get_observer());
 
-        mutable std::map<TKey, subject_observer, KeyComparator> key_to_observer{};
+        mutable std::map<TKey, subject_observer, KeyComparator> key_to_observer{comparator};
         std::shared_ptr<refcount_disposable>                    disposable = [&] {
             auto ptr = disposable_wrapper_impl<refcount_disposable>::make().lock();
             observer.set_upstream(ptr->add_ref());
-- 
2.43.0


From 734a6c71d8ce53886d9053df9c5c591b498fdaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:22 +0000
Subject: [PATCH 20/36] fix: composite_disposable disposes and releases members
 outside of its edit state

---
 .../rpp/disposables/composite_disposable.hpp   | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/rpp/rpp/disposables/composite_disposable.hpp b/src/rpp/rpp/disposables/composite_disposable.hpp
index 25b05d9..a1d44c6 100644
--- a/src/rpp/rpp/disposables/composite_disposable.hpp
+++ b/src/rpp/rpp/disposables/composite_disposable.hpp
@@ -97,6 +97,9 @@ namespace rpp
 
         void remove(const disposable_wrapper& disposable) override
         {
+            // last reference has to be released after return to None: it can try to change this disposable while it is being disposed
+            const auto locked = disposable.lock();
+
             while (true)
             {
                 State expected{State::None};
@@ -130,18 +133,13 @@ namespace rpp
                 // need to acquire possible disposables state changing from other `add` or `remove`
                 if (m_current_state.compare_exchange_strong(expected, State::Edit, std::memory_order::seq_cst))
                 {
-                    try
-                    {
-                        m_disposables.dispose();
-                        m_disposables.clear();
-                    }
-                    catch (...)
-                    {
-                        m_current_state.store(State::None, std::memory_order::seq_cst);
-                        throw;
-                    }
+                    // disposables have to be disposed after return to None: any of them can try to change this disposable while it is being disposed
+                    Container disposables{std::move(m_disposables)};
+                    m_disposables.clear();
                     // need to propogate disposables state changing to others
                     m_current_state.store(State::None, std::memory_order::seq_cst);
+
+                    disposables.dispose();
                     return;
                 }
 
-- 
2.43.0


From 6bafcb047c5c119e24cb8677c5119241d8311ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:41 +0000
Subject: [PATCH 21/36] fix: replay and behavior subjects do not remember
 values emitted after their end

---
 src/rpp/rpp/subjects/details/subject_state.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 2cc88f0..453367b 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -137,10 +137,16 @@ namespace rpp::subjects::details
         void on_next(const Type& v, const std::invocable auto& before_emission)
         {
             std::lock_guard lock{m_serialized_mutex};
-            before_emission();
 
             std::unique_lock observers_lock{m_mutex};
 
+            if (!std::holds_alternative<shared_observers>(m_state))
+                return;
+
+            observers_lock.unlock();
+            before_emission();
+            observers_lock.lock();
+
             if (!std::holds_alternative<shared_observers>(m_state))
                 return;
 
-- 
2.43.0


From 35db5347ec6a4a01599c117751a10611f26c7f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:57 +0000
Subject: [PATCH 22/36] fix: observer delivers nothing emitted from inside of
 its own on_error/on_completed

---
 src/rpp/rpp/observers/observer.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rpp/rpp/observers/observer.hpp b/src/rpp/rpp/observers/observer.hpp
index 4624674..73a12fe 100644
--- a/src/rpp/rpp/observers/observer.hpp
+++ b/src/rpp/rpp/observers/observer.hpp
@@ -85,7 +85,7 @@ namespace rpp::details
         {
             try
             {
-                if (!is_disposed())
+                if (!m_is_terminated && !is_disposed())
                     m_strategy.on_next(v);
             }
             catch (...)
@@ -103,7 +103,7 @@ namespace rpp::details
         {
             try
             {
-                if (!is_disposed())
+                if (!m_is_terminated && !is_disposed())
                     m_strategy.on_next(std::move(v));
             }
             catch (...)
@@ -119,8 +119,10 @@ namespace rpp::details
          */
         void on_error(const std::exception_ptr& err) const noexcept
         {
-            if (!is_disposed())
+            if (!m_is_terminated && !is_disposed())
             {
+                // disposable would be disposed after callback, but nothing can be delivered even from inside of callback
+                m_is_terminated = true;
                 rpp::utils::finally_action finally{[&] {
                     m_disposable.dispose();
                 }};
@@ -134,8 +136,10 @@ namespace rpp::details
          */
         void on_completed() const noexcept
         {
-            if (!is_disposed())
+            if (!m_is_terminated && !is_disposed())
             {
+                // disposable would be disposed after callback, but nothing can be delivered even from inside of callback
+                m_is_terminated = true;
                 rpp::utils::finally_action finally{[&] {
                     m_disposable.dispose();
                 }};
@@ -146,6 +150,7 @@ namespace rpp::details
     private:
         RPP_NO_UNIQUE_ADDRESS Strategy                    m_strategy;
         RPP_NO_UNIQUE_ADDRESS mutable DisposablesStrategy m_disposable;
+        mutable bool                                      m_is_terminated{};
     };
 } // namespace rpp::details
 
-- 
2.43.0


From 69d073154a0ffcb92d8c607c07536b44e6914e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:22 +0000
Subject: [PATCH 23/36] fix: ref_count connects again when its last subscriber
 leaves while a new one arrives

---
 src/rpp/rpp/observables/connectable_observable.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/observables/connectable_observable.hpp b/src/rpp/rpp/observables/connectable_observable.hpp
index 557699e..640f8ef 100644
--- a/src/rpp/rpp/observables/connectable_observable.hpp
+++ b/src/rpp/rpp/observables/connectable_observable.hpp
@@ -52,8 +52,17 @@ namespace rpp::details
         std::pair<rpp::disposable_wrapper, rpp::composite_disposable_wrapper> on_subscribe() const
         {
             std::unique_lock lock(m_state->mutex);
-            if (!m_state->disposable.is_disposed())
-                return {m_state->disposable.lock()->add_ref(), composite_disposable_wrapper::empty()};
+            while (!m_state->disposable.is_disposed())
+            {
+                const auto current = m_state->disposable;
+                if (auto ref = current.lock()->add_ref(); !ref.is_disposed())
+                    return {std::move(ref), composite_disposable_wrapper::empty()};
+
+                // last ref was removed but disposing is not finished yet: there is nothing to share anymore
+                lock.unlock();
+                current.dispose();
+                lock.lock();
+            }
 
             m_state->disposable = disposable_wrapper_impl<rpp::refcount_disposable>::make();
             return {m_state->disposable.lock()->add_ref(), m_state->disposable};
-- 
2.43.0


From 796fd8b192b8a1887d78be4ca6d8e60104cd8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:28 +0000
Subject: [PATCH 24/36] fix: asio strand keeps the requested instants of tasks
 repeated relative to their own timepoint

---
 .../rppasio/rppasio/schedulers/strand.hpp     | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/extensions/rppasio/rppasio/schedulers/strand.hpp b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
index feb6ad8..bf5ff23 100644
--- a/src/extensions/rppasio/rppasio/schedulers/strand.hpp
+++ b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
@@ -31,6 +31,8 @@ namespace rppasio::schedulers
     class strand
     {
     private:
+        class worker_strategy;
+
         class state_t : public std::enable_shared_from_this<state_t>
         {
             class current_thread_queue_guard;
@@ -47,13 +49,11 @@ namespace rppasio::schedulers
                 if (handler.is_disposed())
                     return;
 
-                asio::post(asio::bind_executor(m_strand, [self = this->shared_from_this(), fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                asio::post(asio::bind_executor(m_strand, [self = this->shared_from_this(), tp = worker_strategy::now(), fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (handler.is_disposed())
                         return;
 
-                    current_thread_queue_guard guard{*self};
-                    if (const auto new_duration = fn(handler, args...))
-                        self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
+                    self->invoke(tp, std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
@@ -68,12 +68,25 @@ namespace rppasio::schedulers
                     if (ec || handler.is_disposed())
                         return;
 
-                    current_thread_queue_guard guard{*self};
-                    if (const auto new_duration = fn(handler, args...))
-                        self->defer_with_time(new_duration->value, std::move(fn), std::move(handler), std::move(args)...);
+                    self->invoke(timer->expiry(), std::move(fn), std::move(handler), std::move(args)...);
                 }));
             }
 
+        private:
+            template<typename Handler, typename... Args, typename Fn>
+            void invoke(rpp::schedulers::time_point tp, Fn&& fn, Handler&& handler, Args&&... args) const
+            {
+                current_thread_queue_guard guard{*this};
+                if (const auto new_delay = fn(handler, args...))
+                    defer_with_time(get_next_timepoint(tp, new_delay.value()), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+            }
+
+            static rpp::schedulers::time_point get_next_timepoint(rpp::schedulers::time_point, const rpp::schedulers::delay_from_now& v) { return worker_strategy::now() + v.value; }
+
+            static rpp::schedulers::time_point get_next_timepoint(rpp::schedulers::time_point tp, const rpp::schedulers::delay_from_this_timepoint& v) { return tp + v.value; }
+
+            static rpp::schedulers::time_point get_next_timepoint(rpp::schedulers::time_point, const rpp::schedulers::delay_to& v) { return v.value; }
+
         private:
             // Guard draining schedulables queued to thread local queue to schedule them back to strand queue
             class current_thread_queue_guard
-- 
2.43.0


From 1cdc33af7b1e3d93873581a56cbec6630437e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:28 +0000
Subject: [PATCH 25/36] fix: asio strand passes exception of a task to its
 handler instead of throwing it out of the context

---
 src/extensions/rppasio/rppasio/schedulers/strand.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppasio/rppasio/schedulers/strand.hpp b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
index bf5ff23..8649e43 100644
--- a/src/extensions/rppasio/rppasio/schedulers/strand.hpp
+++ b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
@@ -77,8 +77,15 @@ namespace rppasio::schedulers
             void invoke(rpp::schedulers::time_point tp, Fn&& fn, Handler&& handler, Args&&... args) const
             {
                 current_thread_queue_guard guard{*this};
-                if (const auto new_delay = fn(handler, args...))
-                    defer_with_time(get_next_timepoint(tp, new_delay.value()), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+                try
+                {
+                    if (const auto new_delay = fn(handler, args...))
+                        defer_with_time(get_next_timepoint(tp, new_delay.value()), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+                }
+                catch (...)
+                {
+                    handler.on_error(std::current_exception());
+                }
             }
 
             static rpp::schedulers::time_point get_next_timepoint(rpp::schedulers::time_point, const rpp::schedulers::delay_from_now& v) { return worker_strategy::now() + v.value; }
-- 
2.43.0


From 6b2683b76f90f9846f7cfd52f9ffdc0227aa3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:58 +0000
Subject: [PATCH 26/36] fix: Qt main thread scheduler passes exception of a
 task to its handler instead of throwing it into the event loop

---
 src/extensions/rppqt/rppqt/schedulers/main_thread.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 9a379e1..6b4105b 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -45,8 +45,17 @@ namespace rppqt::schedulers
                 }
 
                 QTimer::singleShot(std::chrono::duration_cast<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
-                    if (!handler.is_disposed())
+                    if (handler.is_disposed())
+                        return;
+
+                    try
+                    {
                         invoke(std::move(fn), std::move(handler), std::move(args)...);
+                    }
+                    catch (...)
+                    {
+                        handler.on_error(std::current_exception());
+                    }
                 });
             }
 
-- 
2.43.0


From 0fd6e545f16ac455aba3afcbfd7d12f8d7d771e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:58 +0000
Subject: [PATCH 27/36] fix: Qt main thread scheduler never runs tasks earlier
 than requested

---
 src/extensions/rppqt/rppqt/schedulers/main_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 6b4105b..8c4c726 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -44,7 +44,7 @@ namespace rppqt::schedulers
                     return;
                 }
 
-                QTimer::singleShot(std::chrono::duration_cast<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), Qt::PreciseTimer, application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (handler.is_disposed())
                         return;
 
-- 
2.43.0


From 667f589b62b5a751980f15eaaa032e69e03b8b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:58 +0000
Subject: [PATCH 28/36] fix: Qt main thread scheduler keeps the requested
 instants of tasks repeated relative to their own timepoint

---
 .../rppqt/rppqt/schedulers/main_thread.hpp          | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 8c4c726..34f7525 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -44,13 +44,13 @@ namespace rppqt::schedulers
                     return;
                 }
 
-                QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), Qt::PreciseTimer, application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), Qt::PreciseTimer, application, [tp = now() + std::max(rpp::schedulers::duration{}, duration), fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (handler.is_disposed())
                         return;
 
                     try
                     {
-                        invoke(std::move(fn), std::move(handler), std::move(args)...);
+                        invoke(tp, std::move(fn), std::move(handler), std::move(args)...);
                     }
                     catch (...)
                     {
@@ -63,22 +63,21 @@ namespace rppqt::schedulers
 
         private:
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_now_fn<Handler, Args...> Fn>
-            static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
+            static void invoke(rpp::schedulers::time_point, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 if (const auto new_duration = fn(handler, args...))
                     defer_for(new_duration->value, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_this_timepoint_fn<Handler, Args...> Fn>
-            static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
+            static void invoke(rpp::schedulers::time_point tp, Fn&& fn, Handler&& handler, Args&&... args)
             {
-                const auto now = rpp::schedulers::clock_type::now();
                 if (const auto new_duration = fn(handler, args...))
-                    defer_for(now + new_duration->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
+                    defer_for(tp + new_duration->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
             }
 
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_to_fn<Handler, Args...> Fn>
-            static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
+            static void invoke(rpp::schedulers::time_point, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 if (const auto new_tp = fn(handler, args...))
                     defer_for(new_tp->value - rpp::schedulers::clock_type::now(), std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
-- 
2.43.0


From 5b4bbb8deddb4f3ac7b192b1f2df1572e5897939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:58 +0000
Subject: [PATCH 29/36] fix: Qt main thread scheduler doesn't lose delayed
 tasks scheduled from threads without Qt's event loop

---
 .../rppqt/rppqt/schedulers/main_thread.hpp    | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 34f7525..d93bbdd 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -18,6 +18,7 @@
 #include "rpp/schedulers/fwd.hpp"
 
 #include <QCoreApplication>
+#include <QThread>
 #include <QTimer>
 #include <chrono>
 #include <concepts>
@@ -44,7 +45,7 @@ namespace rppqt::schedulers
                     return;
                 }
 
-                QTimer::singleShot(std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), Qt::PreciseTimer, application, [tp = now() + std::max(rpp::schedulers::duration{}, duration), fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                start_timer(application, duration, [tp = now() + std::max(rpp::schedulers::duration{}, duration), fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (handler.is_disposed())
                         return;
 
@@ -62,6 +63,26 @@ namespace rppqt::schedulers
             static rpp::schedulers::time_point now() { return rpp::schedulers::clock_type::now(); }
 
         private:
+            template<typename Callable>
+            static void start_timer(QCoreApplication* application, rpp::schedulers::duration duration, Callable&& callable)
+            {
+                const auto interval = std::chrono::ceil<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration));
+
+                if (interval == std::chrono::milliseconds{} || QThread::currentThread() == application->thread())
+                {
+                    QTimer::singleShot(interval, Qt::PreciseTimer, application, std::forward<Callable>(callable));
+                    return;
+                }
+
+                // Qt is able to start timers only inside of threads with Qt's event loop
+                QMetaObject::invokeMethod(
+                    application,
+                    [application, tp = now() + duration, callable = std::forward<Callable>(callable)]() mutable {
+                        start_timer(application, tp - now(), std::move(callable));
+                    },
+                    Qt::QueuedConnection);
+            }
+
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_now_fn<Handler, Args...> Fn>
             static void invoke(rpp::schedulers::time_point, Fn&& fn, Handler&& handler, Args&&... args)
             {
-- 
2.43.0


From 8a6e60b1eda7a7c2dff2b594c70cf06963f5608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:04 +0000
Subject: [PATCH 30/36] fix: gRPC server reactor keeps the error status while
 writes are pending

---
 src/extensions/rppgrpc/rppgrpc/details/base.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index c5e73fa..cf451cf 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -59,7 +59,7 @@ namespace rppgrpc::details
             }
             else if (m_finished)
             {
-                finish_writes(grpc::Status::OK);
+                finish_writes(m_finish_status);
             }
         }
 
@@ -79,10 +79,11 @@ namespace rppgrpc::details
             void on_error(const std::exception_ptr&) const
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
+                owner.get().m_finished      = true;
+                owner.get().m_finish_status = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
+                    owner.get().finish_writes(owner.get().m_finish_status);
             }
             void on_completed() const
             {
@@ -103,6 +104,7 @@ namespace rppgrpc::details
         std::mutex        m_write_mutex{};
         std::deque<TData> m_write{};
         bool              m_finished{};
+        grpc::Status      m_finish_status{};
     };
 
     template<rpp::constraint::decayed_type TData>
-- 
2.43.0


From eac71f7e44ceb062603f44eb0c83161551023eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:04 +0000
Subject: [PATCH 31/36] fix: gRPC server reactors finish the stream once

---
 .../rppgrpc/rppgrpc/details/base.hpp          | 26 ++++++++++++++++---
 .../rppgrpc/rppgrpc/server_reactor.hpp        |  6 ++---
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index cf451cf..4fef2a7 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -20,6 +20,7 @@
 
 #include <deque>
 #include <mutex>
+#include <utility>
 
 namespace rppgrpc::details
 {
@@ -48,18 +49,27 @@ namespace rppgrpc::details
             m_subject.get_disposable().dispose();
         }
 
+        void handle_finish(const grpc::Status& status)
+        {
+            std::lock_guard lock{m_write_mutex};
+            finish_once(status);
+        }
+
         void handle_write_done()
         {
             std::lock_guard lock{m_write_mutex};
             m_write.pop_front();
 
+            if (m_finish_sent)
+                return;
+
             if (!m_write.empty())
             {
                 start_write(m_write.front());
             }
             else if (m_finished)
             {
-                finish_writes(m_finish_status);
+                finish_once(m_finish_status);
             }
         }
 
@@ -72,7 +82,7 @@ namespace rppgrpc::details
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
                 owner.get().m_write.push_back(std::forward<T>(message));
-                if (owner.get().m_write.size() == 1)
+                if (owner.get().m_write.size() == 1 && !owner.get().m_finish_sent)
                     owner.get().start_write(owner.get().m_write.front());
             }
 
@@ -83,7 +93,7 @@ namespace rppgrpc::details
                 owner.get().m_finish_status = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(owner.get().m_finish_status);
+                    owner.get().finish_once(owner.get().m_finish_status);
             }
             void on_completed() const
             {
@@ -91,19 +101,27 @@ namespace rppgrpc::details
                 owner.get().m_finished = true;
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status::OK);
+                    owner.get().finish_once(grpc::Status::OK);
             }
 
             static constexpr bool is_disposed() { return false; }
             static constexpr void set_upstream(const rpp::disposable_wrapper&) {}
         };
 
+    private:
+        void finish_once(const grpc::Status& status)
+        {
+            if (!std::exchange(m_finish_sent, true))
+                finish_writes(status);
+        }
+
     private:
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
 
         std::mutex        m_write_mutex{};
         std::deque<TData> m_write{};
         bool              m_finished{};
+        bool              m_finish_sent{};
         grpc::Status      m_finish_status{};
     };
 
diff --git a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
index 956ab6d..bdf3aac 100644
--- a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
@@ -95,7 +95,7 @@ namespace rppgrpc
             details::base_writer<Response>::handle_on_done();
             details::base_reader<Request>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
 
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::handle_finish(grpc::Status::CANCELLED);
         }
     };
 
@@ -144,7 +144,7 @@ namespace rppgrpc
         {
             if (!ok)
             {
-                Base::Finish(grpc::Status::OK);
+                details::base_writer<Response>::handle_finish(grpc::Status::OK);
                 return;
             }
 
@@ -164,7 +164,7 @@ namespace rppgrpc
             details::base_writer<Response>::handle_on_done();
             details::base_reader<rpp::utils::none>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
 
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::handle_finish(grpc::Status::CANCELLED);
         }
     };
 
-- 
2.43.0


From 4f1767b13679c93769be6d4b71f54f4006ebf7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:04 +0000
Subject: [PATCH 32/36] fix: gRPC server reactors do not notify of a
 cancellation while a value is being delivered

---
 src/extensions/rppgrpc/rppgrpc/details/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index 4fef2a7..e81e5a2 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -156,8 +156,8 @@ namespace rppgrpc::details
         }
 
     private:
-        rpp::subjects::publish_subject<TData> m_observer;
-        RPP_NO_UNIQUE_ADDRESS TData           m_data{};
+        rpp::subjects::serialized_publish_subject<TData> m_observer;
+        RPP_NO_UNIQUE_ADDRESS TData                      m_data{};
     };
 
 } // namespace rppgrpc::details
-- 
2.43.0


From cc2b925d231188b29e7312a53b85d0c78c53221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:17 +0000
Subject: [PATCH 33/36] fix: gRPC reactors can be deleted while a value is
 being emitted

---
 .../rppgrpc/rppgrpc/details/base.hpp          | 65 ++++++++++++++-----
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index e81e5a2..c593a18 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -19,6 +19,7 @@
 #include "rpp/subjects/publish_subject.hpp"
 
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <utility>
 
@@ -30,7 +31,7 @@ namespace rppgrpc::details
     public:
         base_writer()
         {
-            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{*this});
+            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{m_link});
         }
 
         virtual ~base_writer() noexcept = default;
@@ -41,23 +42,38 @@ namespace rppgrpc::details
         }
 
     protected:
+        // outlives the reactor while values are being emitted
+        struct link
+        {
+            explicit link(base_writer* owner)
+                : owner{owner}
+            {
+            }
+
+            std::mutex   mutex{};
+            base_writer* owner;
+        };
+
         virtual void start_write(const TData& v)               = 0;
         virtual void finish_writes(const grpc::Status& status) = 0;
 
         void handle_on_done()
         {
             m_subject.get_disposable().dispose();
+
+            std::lock_guard lock{m_link->mutex};
+            m_link->owner = nullptr;
         }
 
         void handle_finish(const grpc::Status& status)
         {
-            std::lock_guard lock{m_write_mutex};
+            std::lock_guard lock{m_link->mutex};
             finish_once(status);
         }
 
         void handle_write_done()
         {
-            std::lock_guard lock{m_write_mutex};
+            std::lock_guard lock{m_link->mutex};
             m_write.pop_front();
 
             if (m_finish_sent)
@@ -75,33 +91,45 @@ namespace rppgrpc::details
 
         struct observer_strategy
         {
-            std::reference_wrapper<base_writer> owner{};
+            std::shared_ptr<link> m_link{};
 
             template<rpp::constraint::decayed_same_as<TData> T>
             void on_next(T&& message) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_write.push_back(std::forward<T>(message));
-                if (owner.get().m_write.size() == 1 && !owner.get().m_finish_sent)
-                    owner.get().start_write(owner.get().m_write.front());
+                std::lock_guard lock{m_link->mutex};
+                auto* const     owner = m_link->owner;
+                if (!owner)
+                    return;
+
+                owner->m_write.push_back(std::forward<T>(message));
+                if (owner->m_write.size() == 1 && !owner->m_finish_sent)
+                    owner->start_write(owner->m_write.front());
             }
 
             void on_error(const std::exception_ptr&) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished      = true;
-                owner.get().m_finish_status = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
+                std::lock_guard lock{m_link->mutex};
+                auto* const     owner = m_link->owner;
+                if (!owner)
+                    return;
+
+                owner->m_finished      = true;
+                owner->m_finish_status = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_once(owner.get().m_finish_status);
+                if (owner->m_write.size() == 0)
+                    owner->finish_once(owner->m_finish_status);
             }
             void on_completed() const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
+                std::lock_guard lock{m_link->mutex};
+                auto* const     owner = m_link->owner;
+                if (!owner)
+                    return;
 
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_once(grpc::Status::OK);
+                owner->m_finished = true;
+
+                if (owner->m_write.size() == 0)
+                    owner->finish_once(grpc::Status::OK);
             }
 
             static constexpr bool is_disposed() { return false; }
@@ -118,7 +146,8 @@ namespace rppgrpc::details
     private:
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
 
-        std::mutex        m_write_mutex{};
+        const std::shared_ptr<link> m_link = std::make_shared<link>(this);
+
         std::deque<TData> m_write{};
         bool              m_finished{};
         bool              m_finish_sent{};
-- 
2.43.0


From ff18db5a0eaa9e6a2f3676a1f0705a439cde539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:17 +0000
Subject: [PATCH 34/36] fix: gRPC client reactor doesn't start writes on a call
 which is over

---
 src/extensions/rppgrpc/rppgrpc/client_reactor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
index 3f62d68..491ae95 100644
--- a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
@@ -73,7 +73,11 @@ namespace rppgrpc
         void OnReadDone(bool ok) override
         {
             if (!ok)
+            {
+                // nothing keeps the call alive now: no new writes
+                details::base_writer<Request>::handle_on_done();
                 return;
+            }
 
             details::base_reader<Response>::handle_read_done();
         }
-- 
2.43.0


From 1b886b64e0668f43d8fb212f0e03a2c4e4768cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:52 +0000
Subject: [PATCH 35/36] fix: disposables made through
 composite_disposable_wrapper::make know their own wrapper

refcount references made by refcount_disposable::add_ref never got their weak
self (the check asked whether the interface derives from
enable_wrapper_from_this, instead of the object which is made), so a finished
reference never left its refcount's container: concat() kept one for every
finished inner observable.
---
 src/rpp/rpp/disposables/disposable_wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/disposables/disposable_wrapper.hpp b/src/rpp/rpp/disposables/disposable_wrapper.hpp
index 26477d7..4f35243 100644
--- a/src/rpp/rpp/disposables/disposable_wrapper.hpp
+++ b/src/rpp/rpp/disposables/disposable_wrapper.hpp
@@ -134,9 +134,9 @@ namespace rpp
         {
             const auto ptr      = std::make_shared<details::auto_dispose_wrapper<TTarget>>(std::forward<TArgs>(args)...);
             auto       base_ptr = std::shared_ptr<TDisposable>{ptr, static_cast<TDisposable*>(ptr->get())};
-            if constexpr (rpp::utils::is_base_of_v<TDisposable, rpp::details::enable_wrapper_from_this>)
+            if constexpr (rpp::utils::is_base_of_v<TTarget, rpp::details::enable_wrapper_from_this>)
             {
-                base_ptr->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
+                ptr->get()->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
             }
             return disposable_wrapper_impl{std::static_pointer_cast<interface_disposable>(std::move(base_ptr))};
         }
-- 
2.43.0


From d657a8edbec874c5b76a5b905091e087dfa56f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:13 +0000
Subject: [PATCH 36/36] fix: source::defer keeps its own copy of a factory
 passed as lvalue

The type of the factory was taken as deduced from the forwarding reference, so the observable kept a reference to
the caller's object and used it after its end.
---
 src/rpp/rpp/sources/defer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpp/rpp/sources/defer.hpp b/src/rpp/rpp/sources/defer.hpp
index d9578a0..bf0daa2 100644
--- a/src/rpp/rpp/sources/defer.hpp
+++ b/src/rpp/rpp/sources/defer.hpp
@@ -56,6 +56,6 @@ namespace rpp::source
         requires rpp::constraint::observable<std::invoke_result_t<Factory>>
     auto defer(Factory&& observable_factory)
     {
-        return defer_observable<rpp::utils::extract_observable_type_t<std::invoke_result_t<Factory>>, Factory>{std::forward<Factory>(observable_factory)};
+        return defer_observable<rpp::utils::extract_observable_type_t<std::invoke_result_t<Factory>>, std::decay_t<Factory>>{std::forward<Factory>(observable_factory)};
     }
 } // namespace rpp::source
-- 
2.43.0

