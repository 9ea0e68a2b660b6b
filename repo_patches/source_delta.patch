From a12bcfa3821a309b75eb209a61d1ecd0f39f33d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 01/67] fix: mutex_lock gives up ownership before the next
 owner resumes

---
 include/asyncpp/mutex.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/mutex.h b/include/asyncpp/mutex.h
index 7e32960..9203e1e 100644
--- a/include/asyncpp/mutex.h
+++ b/include/asyncpp/mutex.h
@@ -143,11 +143,15 @@ namespace asyncpp {
 			other.m_locked = false;
 		}
 		mutex_lock& operator=(mutex_lock&& other) noexcept {
-			if (m_mtx != nullptr && m_locked) m_mtx->unlock();
+			auto* const old_mtx = m_locked ? m_mtx : nullptr;
 			m_mtx = other.m_mtx;
-			other.m_mtx = nullptr;
 			m_locked = other.m_locked;
-			other.m_locked = false;
+			if (this != &other) {
+				other.m_mtx = nullptr;
+				other.m_locked = false;
+				// unlock() might resume the next owner, which must not see this lock as holding its old mutex
+				if (old_mtx != nullptr) old_mtx->unlock();
+			}
 			return *this;
 		}
 		~mutex_lock() {
@@ -160,8 +164,9 @@ namespace asyncpp {
          */
 		void unlock() noexcept {
 			assert(m_locked);
-			m_mtx->unlock();
+			// unlock() might resume the next owner, which must not see this lock as locked anymore
 			m_locked = false;
+			m_mtx->unlock();
 		}
 
 		/**
-- 
2.43.0


From 6b6366d37efc2bc2e257bf250c2e7255b58be42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 02/67] fix: multi_consumer_event::set returns false if nobody
 was waiting

---
 include/asyncpp/event.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index e6092e3..0beae13 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -341,6 +341,7 @@ namespace asyncpp {
 			auto state = m_state.exchange(this, std::memory_order::acq_rel);
 			if (state == this) return false;
 			auto await = static_cast<awaiter*>(state);
+			if (await == nullptr) return false;
 			while (await != nullptr) {
 				auto next = await->m_next;
 				assert(await->m_parent == this);
-- 
2.43.0


From a8ada928f1863f834ae8aa930ef5f6b647004b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 03/67] fix: single_consumer_auto_reset_event::set must not
 lose a concurrent set

---
 include/asyncpp/event.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index 0beae13..9fa2ef2 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -197,14 +197,15 @@ namespace asyncpp {
          * \return true if a coroutine has been waiting and was resumed
          */
 		bool set(dispatcher* resume_dispatcher = nullptr) noexcept {
-			auto state = m_state.exchange(this, std::memory_order::release);
+			void* state = m_state.load(std::memory_order::relaxed);
+			// A waiting coroutine consumes the event (=> unset), otherwise the event becomes (or stays) set.
+			// This needs to be a single step, otherwise a concurrent call to set() could get lost.
+			while (!m_state.compare_exchange_weak(
+				state, (state == nullptr || state == this) ? static_cast<void*>(this) : nullptr,
+				std::memory_order::acq_rel, std::memory_order::relaxed)) {}
 			if (state != nullptr && state != this) {
 				auto await = static_cast<awaiter*>(state);
 
-				// Only modify the state if it has not been changed in between
-				state = this;
-				m_state.compare_exchange_strong(state, nullptr, std::memory_order::acq_rel);
-
 				assert(await->m_parent == this);
 				assert(await->m_handle);
 				if (await->m_dispatcher != nullptr) {
-- 
2.43.0


From cc290c0a60263a3632fc230a4217647a37dc32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 04/67] fix: multi_consumer_auto_reset_event lost waiters and
 lacked synchronization

---
 include/asyncpp/event.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index 9fa2ef2..a747305 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -485,13 +485,12 @@ namespace asyncpp {
 			void* old_state = m_state.load(std::memory_order::acquire);
 			void* new_state;
 			do {
-				// If the state is already set we can just return
-				if (old_state == this) return false;
-				// Otherwise store the state as an awaiter
-				await = static_cast<awaiter*>(old_state);
+				// If the event is not set store the state as an awaiter
+				await = (old_state == this) ? nullptr : static_cast<awaiter*>(old_state);
 				// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
-				new_state = (old_state == nullptr) ? this : nullptr;
-			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::release,
+				// and if it is already set we still write it, to publish our writes to the coroutine that gets let through
+				new_state = (await == nullptr) ? this : nullptr;
+			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::acq_rel,
 													std::memory_order::acquire));
 
 			// Execute the awaiters (if any)
@@ -562,16 +561,16 @@ namespace asyncpp {
 				//       because in that case we just enter the main loop in await_suspend
 				// Returns true if the value was updated (i.e. old_state equalled m_parent and cas succeeded)
 				return m_parent->m_state.compare_exchange_weak( //
-					old_state, nullptr, std::memory_order::release, std::memory_order::acquire);
+					old_state, nullptr, std::memory_order::acq_rel, std::memory_order::acquire);
 			}
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
 				void* old_state = m_parent->m_state.load(std::memory_order::acquire);
-				do {
+				while (true) {
 					// If the event is set, reset it and resume the coroutine
 					if (old_state == m_parent) {
 						if (m_parent->m_state.compare_exchange_weak( //
-								old_state, nullptr, std::memory_order::release, std::memory_order::acquire))
+								old_state, nullptr, std::memory_order::acq_rel, std::memory_order::acquire))
 							return false;
 						// the state changed between load and compare (either because another coroutine was faster or the event was reset).
 						// Retry from the start
@@ -579,9 +578,10 @@ namespace asyncpp {
 					}
 					// The event is unset, add the existing awaiter (if any) to the list and suspend the coroutine
 					m_next = static_cast<awaiter*>(old_state);
-				} while (!m_parent->m_state.compare_exchange_weak( //
-					old_state, this, std::memory_order::release, std::memory_order::acquire));
-				return true;
+					if (m_parent->m_state.compare_exchange_weak( //
+							old_state, this, std::memory_order::release, std::memory_order::acquire))
+						return true;
+				}
 			}
 			constexpr void await_resume() const noexcept {}
 
-- 
2.43.0


From a0df9464b9994954ef8103606faeef6bcfa59a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 05/67] fix: latch opens once the count reaches zero

---
 include/asyncpp/latch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/latch.h b/include/asyncpp/latch.h
index 2099ddd..b8fe44e 100644
--- a/include/asyncpp/latch.h
+++ b/include/asyncpp/latch.h
@@ -39,7 +39,7 @@ namespace asyncpp {
          * \note It is undefined if the sum of all decrement calls exceeds the counter value.
          */
 		void decrement(std::size_t n = 1) noexcept {
-			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == 0) { m_event.set(); }
+			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == n) { m_event.set(); }
 		}
 
 		/**
-- 
2.43.0


From 84fa0322e419bc8bbda72091ac6f857919eaf32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 06/67] fix: channel write handed directly to a waiting reader
 yields true

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 6757539..41bbbda 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -281,6 +281,7 @@ namespace asyncpp {
 			lck.unlock();
 			// Copy the value over
 			rdr->m_result = std::move(m_value);
+			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
-- 
2.43.0


From f93fffacfd5a56ed216ee88c53ffb332c4620455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 07/67] fix: channel read racing with close must not suspend
 forever

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 41bbbda..f679f45 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -229,6 +229,7 @@ namespace asyncpp {
 		m_handle = hndl;
 		m_next = nullptr;
 		std::unique_lock lck{m_parent->m_mtx};
+		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
 			// Unhook writer
-- 
2.43.0


From 27e9fc57d69087428636f3f3a58882cc9e19f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 08/67] fix: queue::try_emplace constructs the same value for a
 waiting pop as for the queue

---
 include/asyncpp/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 547588d..6d35b5b 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -253,7 +253,7 @@ namespace asyncpp {
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
 			lck.unlock();
-			awaiter->resume(T{std::forward<Args>(args)...});
+			awaiter->resume(T(std::forward<Args>(args)...));
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
-- 
2.43.0


From b016f6cabfe602d6a67eb9d4c975bdd49072f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 09/67] fix: threadsafe_queue can be copied

---
 include/asyncpp/threadsafe_queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 3244203..f35fd01 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -3,6 +3,7 @@
 #include <mutex>
 #include <optional>
 #include <queue>
+#include <type_traits>
 #include <utility>
 
 namespace asyncpp {
@@ -14,7 +15,7 @@ namespace asyncpp {
 	 */
 	template<typename T, typename Container = std::deque<T>>
 	class threadsafe_queue {
-		std::mutex m_mutex{};
+		mutable std::mutex m_mutex{};
 		std::queue<T, Container> m_queue{};
 
 	public:
@@ -23,6 +24,7 @@ namespace asyncpp {
 		* \param args Arguments to forward to the container constructor
 		*/
 		template<typename... Args>
+			requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, threadsafe_queue> && ...)))
 		explicit threadsafe_queue(Args&&... args) : m_queue(std::forward<Args>(args)...) {}
 
 		threadsafe_queue(const threadsafe_queue& other) {
-- 
2.43.0


From 4df0d647a351e0be857ef05332a5c5f346b878bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 10/67] fix: promise_first_successful only rejects if every
 argument was rejected

---
 include/asyncpp/promise.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0360c71..a9757e9 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -494,8 +494,7 @@ namespace asyncpp {
 		promise<T> result_promise;
 		auto finished = std::make_shared<std::atomic<size_t>>(0);
 		(args.then(
-			 [result_promise, finished](const typename promise<TArgs>::result_type& res) mutable {
-				 finished->fetch_add(1);
+			 [result_promise](const typename promise<TArgs>::result_type& res) mutable {
 				 result_promise.try_fulfill(res);
 			 },
 			 [result_promise, finished](const std::exception_ptr& exception) mutable {
-- 
2.43.0


From 22dc7a86e94c4f33090a810784a73516d2085817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 11/67] fix: thread_pool::push from a task of another pool must
 not run on that pool

---
 include/asyncpp/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index ea81125..38273d9 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -40,7 +40,7 @@ namespace asyncpp {
 		 */
 		void push(std::function<void()> cbfn) override {
 			if (!cbfn) return;
-			if (g_current_thread != nullptr) {
+			if (g_current_thread != nullptr && g_current_thread->pool == this) {
 				std::unique_lock lck{g_current_thread->mutex};
 				g_current_thread->queue.emplace(std::move(cbfn));
 			} else {
-- 
2.43.0


From 50627e6c02790a2565d39c9e71fe46d0a28e333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 12/67] fix: thread_pool::resize must not retire a worker
 somebody still pushes to or steals from

---
 include/asyncpp/thread_pool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 38273d9..d3c56b0 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -63,7 +63,11 @@ namespace asyncpp {
 			auto old = m_target_size.load();
 			if (old > target_size) {
 				// Prevent new tasks from being scheduled on those threads
-				m_valid_size = target_size;
+				// (the lock waits for everyone that already selected one of them to push to or steal from).
+				{
+					std::unique_lock threads_lck{m_threads_mtx};
+					m_valid_size = target_size;
+				}
 				m_target_size = target_size;
 				// Notify all and join threads, if the threads index is greater or equal to m_target_size,
 				// it will invoke its remaining tasks and exit.
-- 
2.43.0


From 7256603ac66bb5e7c00a07601c5a4a49710b2c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 13/67] fix: retiring thread_pool worker accepts pushes from
 its remaining tasks

---
 include/asyncpp/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index d3c56b0..721f3f9 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -162,7 +162,6 @@ namespace asyncpp {
 					}
 				}
 				std::unique_lock lck{mutex};
-				g_current_thread = nullptr;
 				while (!queue.empty()) {
 					auto& cbfn = queue.front();
 					lck.unlock();
@@ -170,6 +169,7 @@ namespace asyncpp {
 					lck.lock();
 					queue.pop();
 				}
+				g_current_thread = nullptr;
 				dispatcher::current(nullptr);
 			}
 		};
-- 
2.43.0


From 17559d4bae5d3c9c9b90c68287e397a7749de9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 14/67] fix: simple_dispatcher::run must not miss a stop from
 another thread

---
 include/asyncpp/simple_dispatcher.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 9f51937..a57cfcc 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -43,12 +43,12 @@ namespace asyncpp {
          */
 		void run() {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
-			while (!m_done) {
+			while (true) {
 				std::unique_lock lck{m_mtx};
-				if (m_queue.empty()) {
+				// NOTE: m_done needs to be checked with the lock held to not miss the notification
+				while (m_queue.empty() && !m_done)
 					m_cv.wait(lck);
-					continue;
-				}
+				if (m_done) break;
 				auto cbfn = std::move(m_queue.front());
 				m_queue.pop_front();
 				lck.unlock();
-- 
2.43.0


From b93780e2457b7bc0f007c351ae51d89a1ea2de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 15/67] fix: fire_and_forget_task drops its own reference only
 once suspended

---
 include/asyncpp/fire_and_forget.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index fd93659..dba5e81 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -44,10 +44,10 @@ namespace asyncpp {
 				auto final_suspend() noexcept {
 					struct awaiter {
 						promise_type* self;
-						[[nodiscard]] constexpr bool await_ready() const noexcept {
-							return self->m_ref_count.fetch_sub(1) == 1;
-						}
-						void await_suspend(coroutine_handle<>) const noexcept {}
+						[[nodiscard]] constexpr bool await_ready() const noexcept { return false; }
+						// NOTE: The reference is only dropped once the coroutine is suspended, because
+						//       another thread might drop the last one and destroy it right afterwards.
+						void await_suspend(coroutine_handle<>) const noexcept { self->unref(); }
 						constexpr void await_resume() const noexcept {}
 					};
 					return awaiter{this};
-- 
2.43.0


From efd7b0e5405efee17537a48f7d441cb639afd9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 16/67] fix: fire_and_forget_task::start on a second copy must
 not resume a running coroutine

---
 include/asyncpp/fire_and_forget.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index dba5e81..9984ea7 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -23,6 +23,7 @@ namespace asyncpp {
 			// Promise type of this task
 			class promise_type : public promise_allocator_base<Allocator> {
 				std::atomic<size_t> m_ref_count{1};
+				std::atomic<bool> m_started{false};
 				std::function<void()> m_exception_handler{};
 
 			public:
@@ -73,6 +74,7 @@ namespace asyncpp {
 					if (m_ref_count.fetch_sub(1) == 1) coroutine_handle<promise_type>::from_promise(*this).destroy();
 				}
 				void ref() noexcept { m_ref_count.fetch_add(1); }
+				bool mark_started() noexcept { return !m_started.exchange(true); }
 			};
 
 			/// \brief Construct from a handle
@@ -110,9 +112,9 @@ namespace asyncpp {
 			void start() noexcept
 				requires(!Eager)
 			{
-				if (m_coro && !m_coro.done()) {
-					m_coro.resume();
-					// Make sure it is only started once
+				if (m_coro) {
+					// Make sure it is only started once, even if there are other copies
+					if (m_coro.promise().mark_started()) m_coro.resume();
 					m_coro.promise().unref();
 					m_coro = nullptr;
 				}
-- 
2.43.0


From f0ec4808d6c1daf6111b0526992dca2ad7ef752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 17/67] fix: exception_policy::ignore must not terminate

---
 include/asyncpp/policy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/policy.h b/include/asyncpp/policy.h
index 74d4519..7d7da04 100644
--- a/include/asyncpp/policy.h
+++ b/include/asyncpp/policy.h
@@ -25,5 +25,5 @@ namespace asyncpp {
 		static exception_policy handle(std::function<void()> cbfn) { return exception_policy{std::move(cbfn)}; }
 	};
 	inline const exception_policy exception_policy::terminate = {[]() { std::terminate(); }};
-	inline const exception_policy exception_policy::ignore = {};
+	inline const exception_policy exception_policy::ignore = {[]() {}};
 } // namespace asyncpp
-- 
2.43.0


From f9ec32c2826abf3a7746dcc21161dd1b65b50e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 18/67] fix: join of an async_launch_scope racing with its last
 child

---
 include/asyncpp/launch.h | 79 ++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 5cc02b2..6cd9e30 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -49,9 +49,30 @@ namespace asyncpp {
 	 * \brief Holder class for spawning child tasks. Allows waiting for all of them to finish.
 	 */
 	class async_launch_scope {
+		// Bit 0 of m_count is set while a suspended join() waits in m_continuation, each
+		// running child adds child_increment. Whoever removes the last child while bit 0 is set
+		// has to resume the join, otherwise the scope must not be touched after that point.
+		static constexpr size_t join_waiting = 1U;
+		static constexpr size_t child_increment = 2U;
 		std::atomic<size_t> m_count{0U};
 		std::atomic<void*> m_continuation{nullptr};
 
+		void child_done() noexcept {
+			auto cur = m_count.load();
+			while (true) {
+				// If this is the last task and we are being awaited
+				if (cur == (child_increment | join_waiting)) {
+					auto hdl = m_continuation.load();
+					if (m_count.compare_exchange_weak(cur, 0)) {
+						// Resume the awaiter
+						coroutine_handle<>::from_address(hdl).resume();
+						return;
+					}
+				} else if (m_count.compare_exchange_weak(cur, cur - child_increment))
+					return;
+			}
+		}
+
 	public:
 		constexpr async_launch_scope() noexcept = default;
 		async_launch_scope(const async_launch_scope&) = delete;
@@ -67,16 +88,8 @@ namespace asyncpp {
 		void launch(Awaitable&& awaitable, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, std::decay_t<Awaitable> awaitable,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->m_count.fetch_add(child_increment);
+				scope_guard guard{[scope]() noexcept { scope->child_done(); }};
 				co_await awaitable;
 			}(this, std::forward<decltype(awaitable)>(awaitable), allocator);
 		}
@@ -93,16 +106,8 @@ namespace asyncpp {
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->m_count.fetch_add(child_increment);
+				scope_guard guard{[scope]() noexcept { scope->child_done(); }};
 				co_await std::apply(callable, std::move(args));
 			}(this, std::forward<Callable>(callable), std::move(args), allocator);
 		}
@@ -118,16 +123,8 @@ namespace asyncpp {
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
 			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->m_count.fetch_add(child_increment);
+				scope_guard guard{[scope]() noexcept { scope->child_done(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
 			}(this, std::forward<Callable>(callable), std::forward<Args>(args)...);
 		}
@@ -139,19 +136,29 @@ namespace asyncpp {
 		[[nodiscard]] auto join() noexcept {
 			struct awaiter {
 				async_launch_scope* m_scope;
+				bool m_registered = false;
 				[[nodiscard]] bool await_ready() const noexcept {
 					// Dont wait if theres nothing to await
-					return m_scope->m_count.load() == 0;
+					return m_scope->m_count.load() < child_increment;
 				}
-				[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) const {
+				[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) {
 					// Set our coroutine if there is noone waiting
 					void* expected = nullptr;
 					if (!m_scope->m_continuation.compare_exchange_strong(expected, hdl.address()))
 						throw std::logic_error("duplicate join");
-					// We might have nothing left to wait on if the last coroutine finished in the meantime
-					return m_scope->m_count.load() != 0;
+					m_registered = true;
+					auto cur = m_scope->m_count.load();
+					do {
+						// We might have nothing left to wait on if the last coroutine finished in the meantime
+						if (cur < child_increment) return false;
+					} while (!m_scope->m_count.compare_exchange_weak(cur, cur | join_waiting));
+					// We might already be resumed (and destroyed) at this point
+					return true;
+				}
+				void await_resume() const noexcept {
+					// Allow the next join
+					if (m_registered) m_scope->m_continuation.store(nullptr);
 				}
-				constexpr void await_resume() const noexcept {}
 			};
 			return awaiter{this};
 		}
@@ -178,7 +185,7 @@ namespace asyncpp {
 		 * \brief Returns the number of active task on this scope
 		 * \warning Only use this value for informational purposes, it might change at any time.
 		 */
-		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed); }
+		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed) / child_increment; }
 
 		/**
 		 * \brief Returns true if there is no active task currently running on this scope
-- 
2.43.0


From f79aa2462a7474cecf198e14d1057761cf46d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 19/67] fix: async_launch_scope::invoke did not copy lvalue
 callables

---
 include/asyncpp/launch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 6cd9e30..6de5d51 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -104,7 +104,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args, ByteAllocator Allocator = default_allocator_type>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
-			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
 				scope->m_count.fetch_add(child_increment);
 				scope_guard guard{[scope]() noexcept { scope->child_done(); }};
@@ -122,7 +122,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
-			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, Args&&... args) -> detail::launch_task<> {
 				scope->m_count.fetch_add(child_increment);
 				scope_guard guard{[scope]() noexcept { scope->child_done(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
-- 
2.43.0


From fcde581b5aefea23590bdd92e595708f2fd7236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 20/67] fix: timer deadlock when destroying a callback that
 uses the timer

---
 include/asyncpp/timer.h | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 3724245..8b20fd5 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -288,6 +288,14 @@ namespace asyncpp {
 		std::atomic<bool> m_exit{};
 		std::thread m_thread{};
 
+		template<typename Node>
+		static void invoke_entry(Node handle, bool result) noexcept {
+			if (!handle.value().invokable) return;
+			try {
+				handle.value().invokable(result);
+			} catch (...) { std::terminate(); }
+		}
+
 		void run() noexcept {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
@@ -297,39 +305,33 @@ namespace asyncpp {
 				while (!m_pushed.empty()) {
 					auto entry = std::move(m_pushed.front());
 					m_pushed.pop();
+					lck.unlock();
 					if (entry) {
-						lck.unlock();
 						try {
 							entry();
 						} catch (...) { std::terminate(); }
-						lck.lock();
 					}
+					// Destroying the callback might call back into the timer
+					entry = nullptr;
+					lck.lock();
 				}
 				auto now = std::chrono::steady_clock::now();
 				while (!m_scheduled_set.empty()) {
 					auto elem = m_scheduled_set.begin();
 					if (elem->timepoint > now) break;
 					auto handle = m_scheduled_set.extract(elem);
-					if (handle.value().invokable) {
-						lck.unlock();
-						try {
-							handle.value().invokable(true);
-						} catch (...) { std::terminate(); }
-						lck.lock();
-					}
+					lck.unlock();
+					invoke_entry(std::move(handle), true);
+					lck.lock();
 				}
 				while (!m_scheduled_cancellable_set.empty()) {
 					auto elem = m_scheduled_cancellable_set.begin();
 					if (elem->timepoint > now) break;
 					auto handle = m_scheduled_cancellable_set.extract(elem);
-					if (handle.value().invokable) {
-						handle.value().cancel_token.reset();
-						lck.unlock();
-						try {
-							handle.value().invokable(true);
-						} catch (...) { std::terminate(); }
-						lck.lock();
-					}
+					handle.value().cancel_token.reset();
+					lck.unlock();
+					invoke_entry(std::move(handle), true);
+					lck.lock();
 				}
 				now = std::chrono::steady_clock::now();
 				std::chrono::nanoseconds timeout{500 * 1000 * 1000};
-- 
2.43.0


From b150a8e25f818b0f9d090cac276016099d05254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 21/67] fix: timer cancellation racing with scheduling, timeout
 and shutdown

---
 include/asyncpp/timer.h | 99 ++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 47 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 8b20fd5..32f150f 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -39,38 +39,33 @@ namespace asyncpp {
 				timer* parent;
 				/// \brief Iterator to this node in the entry set
 				std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::const_iterator it;
+				/// \brief The entry itself, stays valid if the node was extracted from the set
+				const cancellable_scheduled_entry* entry;
 				/// \brief Invocation operator called on cancellation
 				void operator()() const {
-					// We have to distinguish between cancellation while in the process of construction and
-					// cancellation afterwards. If the stop_token is signalled at the time of construction it directly
-					// invokes the callback, however if we would lock at that point we would cause a deadlock with the
-					// outside lock in schedule(). We also can't directly delete the node in this case because
-					// std::optional<>::emplace tries to set a flag after construction which would cause use after free.
-					// Thus we set a flag in schedule() and postpone both the invoke and deletion until after emplace is done.
-					// If we are not in construction we need to lock and can directly destroy the node once we are done.
-					if (it->in_construction) {
-						auto entry =
-							new std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::node_type(
-								parent->m_scheduled_cancellable_set.extract(it));
-						if (entry->value().invokable) {
-							parent->m_pushed.emplace([entry]() {
-								entry->value().invokable(false);
-								delete entry;
-							});
-						}
-					} else {
-						std::unique_lock lck{parent->m_mtx};
-						auto entry = parent->m_scheduled_cancellable_set.extract(it);
-						lck.unlock();
-						if (entry.value().invokable) {
-							parent->m_pushed.emplace([cbfn = std::move(entry.value().invokable)]() { cbfn(false); });
-							parent->m_cv.notify_all();
-						}
+					// This might run on any thread, at any time between the construction of the stop_callback (directly
+					// inside the constructor if the token is already signalled) and its destruction. Destruction only
+					// ever happens on the timer thread without holding the lock, because it needs to wait for us.
+					std::unique_lock lck{parent->m_mtx};
+					if (entry->current == state::pending) {
+						parent->m_cancelled_set.insert(parent->m_scheduled_cancellable_set.extract(it));
+						parent->m_cv.notify_all();
 					}
+					// If we are not yet in the set schedule() will handle it
+					entry->current = state::done;
 				}
 			};
+			/// \brief State of the entry, protected by the timers mutex
+			enum class state {
+				/// \brief Not yet added to the set
+				construction,
+				/// \brief Waiting for the timeout or cancellation
+				pending,
+				/// \brief Timeout or cancellation happened, callback is about to be invoked
+				done
+			};
 			mutable std::optional<asyncpp::stop_callback<cancel_callback>> cancel_token;
-			mutable bool in_construction{true};
+			mutable state current{state::construction};
 
 			cancellable_scheduled_entry(std::chrono::steady_clock::time_point time,
 										std::function<void(bool)> cbfn) noexcept
@@ -92,6 +87,7 @@ namespace asyncpp {
 			assert(m_pushed.empty());
 			assert(m_scheduled_set.empty());
 			assert(m_scheduled_cancellable_set.empty());
+			assert(m_cancelled_set.empty());
 		}
 		timer(const timer&) = delete;
 		timer& operator=(const timer&) = delete;
@@ -145,10 +141,19 @@ namespace asyncpp {
 		void schedule(std::function<void(bool)> cbfn, std::chrono::steady_clock::time_point timeout,
 					  asyncpp::stop_token stoken) {
 			if (m_exit) throw std::logic_error("shutting down");
+			// The stop_callback is registered before taking the lock because it might get invoked at any time.
+			// Merging the set afterwards does not invalidate iter.
+			std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less> node;
+			auto iter = node.emplace(timeout, std::move(cbfn));
+			iter->cancel_token.emplace(std::move(stoken),
+									   cancellable_scheduled_entry::cancel_callback{this, iter, &*iter});
 			std::unique_lock lck(m_mtx);
-			auto iter = m_scheduled_cancellable_set.emplace(timeout, std::move(cbfn));
-			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, iter});
-			iter->in_construction = false;
+			if (iter->current == cancellable_scheduled_entry::state::construction) {
+				iter->current = cancellable_scheduled_entry::state::pending;
+				m_scheduled_cancellable_set.merge(node);
+			} else {
+				m_cancelled_set.merge(node);
+			}
 			m_cv.notify_all();
 		}
 		/**
@@ -285,11 +290,14 @@ namespace asyncpp {
 		std::queue<std::function<void()>> m_pushed{};
 		std::multiset<scheduled_entry, scheduled_entry::time_less> m_scheduled_set{};
 		std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less> m_scheduled_cancellable_set{};
+		std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less> m_cancelled_set{};
 		std::atomic<bool> m_exit{};
 		std::thread m_thread{};
 
 		template<typename Node>
 		static void invoke_entry(Node handle, bool result) noexcept {
+			// NOTE: Waits for a cancellation running on another thread, so this has to be called without the lock
+			if constexpr (requires { handle.value().cancel_token; }) handle.value().cancel_token.reset();
 			if (!handle.value().invokable) return;
 			try {
 				handle.value().invokable(result);
@@ -300,8 +308,8 @@ namespace asyncpp {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
 #endif
+			std::unique_lock lck(m_mtx);
 			while (true) {
-				std::unique_lock lck(m_mtx);
 				while (!m_pushed.empty()) {
 					auto entry = std::move(m_pushed.front());
 					m_pushed.pop();
@@ -315,6 +323,12 @@ namespace asyncpp {
 					entry = nullptr;
 					lck.lock();
 				}
+				while (!m_cancelled_set.empty()) {
+					auto handle = m_cancelled_set.extract(m_cancelled_set.begin());
+					lck.unlock();
+					invoke_entry(std::move(handle), false);
+					lck.lock();
+				}
 				auto now = std::chrono::steady_clock::now();
 				while (!m_scheduled_set.empty()) {
 					auto elem = m_scheduled_set.begin();
@@ -328,7 +342,7 @@ namespace asyncpp {
 					auto elem = m_scheduled_cancellable_set.begin();
 					if (elem->timepoint > now) break;
 					auto handle = m_scheduled_cancellable_set.extract(elem);
-					handle.value().cancel_token.reset();
+					handle.value().current = cancellable_scheduled_entry::state::done;
 					lck.unlock();
 					invoke_entry(std::move(handle), true);
 					lck.lock();
@@ -338,29 +352,20 @@ namespace asyncpp {
 				if (!m_scheduled_set.empty()) timeout = (std::min)(m_scheduled_set.begin()->timepoint - now, timeout);
 				if (!m_scheduled_cancellable_set.empty())
 					timeout = (std::min)(m_scheduled_cancellable_set.begin()->timepoint - now, timeout);
-				if (m_pushed.empty() && timeout.count() > 0) {
+				if (m_pushed.empty() && m_cancelled_set.empty() && timeout.count() > 0) {
 					if (m_exit) break;
 					m_cv.wait_for(lck, timeout);
 				}
 			}
-			std::unique_lock lck(m_mtx);
+			for (const auto& entry : m_scheduled_cancellable_set)
+				entry.current = cancellable_scheduled_entry::state::done;
 			auto set = std::move(m_scheduled_set);
 			auto cset = std::move(m_scheduled_cancellable_set);
 			lck.unlock();
-			for (const auto& entry : set) {
-				if (entry.invokable) {
-					try {
-						entry.invokable(false);
-					} catch (...) { std::terminate(); }
-				}
-			}
-			for (const auto& entry : cset) {
-				if (entry.invokable) {
-					try {
-						entry.invokable(false);
-					} catch (...) { std::terminate(); }
-				}
-			}
+			while (!set.empty())
+				invoke_entry(set.extract(set.begin()), false);
+			while (!cset.empty())
+				invoke_entry(cset.extract(cset.begin()), false);
 			lck.lock();
 			m_scheduled_set.clear();
 			m_scheduled_cancellable_set.clear();
-- 
2.43.0


From 1546acc1ea6a86a627da6bedaa850b6c024add9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 22/67] fix: dispatcher::current() was not set on the timer
 thread

---
 include/asyncpp/timer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 32f150f..fa987f3 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -308,6 +308,7 @@ namespace asyncpp {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
 #endif
+			dispatcher::current(this);
 			std::unique_lock lck(m_mtx);
 			while (true) {
 				while (!m_pushed.empty()) {
-- 
2.43.0


From c783f5bf34436b3af101eec8065c1965eb76eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:27 +0000
Subject: [PATCH 23/67] fix: stop_source move assignment kept the replaced
 source counted

---
 include/asyncpp/stop_token.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/stop_token.h b/include/asyncpp/stop_token.h
index a38a46c..55fa863 100644
--- a/include/asyncpp/stop_token.h
+++ b/include/asyncpp/stop_token.h
@@ -305,7 +305,10 @@ namespace asyncpp {
 			return *this;
 		}
 
-		stop_source& operator=(stop_source&&) noexcept = default;
+		stop_source& operator=(stop_source&& other) noexcept {
+			stop_source(std::move(other)).swap(*this);
+			return *this;
+		}
 
 		~stop_source() {
 			if (m_state) m_state->sub_ssrc();
-- 
2.43.0


From 91168e70589a311bde691f9c5f0d961c9f731769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:06 +0000
Subject: [PATCH 24/67] fix: atomic_ref could not be used with two types in one
 translation unit

---
 include/asyncpp/ref.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 6ca7a8a..23545f2 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -237,18 +237,15 @@ namespace asyncpp {
 	template<RefCountable T>
 	class atomic_ref {
 		friend struct std::hash<asyncpp::atomic_ref<T>>;
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const atomic_ref<T2>& rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask);
+		friend constexpr auto operator<=>(const atomic_ref& lhs, const atomic_ref& rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask) <=>
+				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const T2* rhs) noexcept {
+		friend constexpr auto operator<=>(const atomic_ref& lhs, const T* rhs) noexcept {
 			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask) <=>
 				   reinterpret_cast<uintptr_t>(rhs);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const T2* lhs, const atomic_ref<T2>& rhs) noexcept {
+		friend constexpr auto operator<=>(const T* lhs, const atomic_ref& rhs) noexcept {
 			return reinterpret_cast<uintptr_t>(lhs) <=>
 				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask);
 		}
-- 
2.43.0


From 638025561c0ac64bdda47529c71392f19c139956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 25/67] fix: refcount decrement did not synchronise with
 earlier releases before deleting

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 23545f2..2a97095 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -31,7 +31,7 @@ namespace asyncpp {
 		thread_safe_refcount& operator=(const thread_safe_refcount& other) = delete;
 
 		size_t fetch_increment() noexcept { return m_count.fetch_add(1, std::memory_order::acquire); }
-		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::release); }
+		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::acq_rel); }
 		[[nodiscard]] size_t count() const noexcept { return m_count.load(std::memory_order::relaxed); }
 	};
 	/**
-- 
2.43.0


From b75749e2d81149a36ae6edd9790b512a3796946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 26/67] fix: ref assignment released the old object before
 taking the new one

---
 include/asyncpp/ref.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 2a97095..923888d 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -169,8 +169,9 @@ namespace asyncpp {
 		/// \brief Move assignment operator
 		//NOLINTNEXTLINE(hicpp-noexcept-move,performance-noexcept-move-constructor)
 		ref& operator=(ref&& other) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = std::exchange(other.m_ptr, nullptr);
+			auto ptr = std::exchange(other.m_ptr, nullptr);
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 			return *this;
 		}
 		/**
@@ -180,9 +181,10 @@ namespace asyncpp {
 		 */
 		void reset(T* ptr) noexcept(noexcept(refcounted_add_ref(std::declval<T*>())) &&
 									noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
-			if (m_ptr) refcounted_add_ref(m_ptr);
+			// Add first, ptr might only be kept alive by the current value
+			if (ptr) refcounted_add_ref(ptr);
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 		}
 		/**
 		 * \brief Reset the handle with a new value
@@ -190,8 +192,8 @@ namespace asyncpp {
 		 * \param adopt_ref the reference count is already incremented, keep it as is
 		 */
 		void reset(T* ptr, decltype(adopt_ref)) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 		}
 		/**
 		 * \brief Reset the handle to nullptr
-- 
2.43.0


From 1840ef125165479c2965940717c68666c1e30139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 27/67] fix: atomic_ref leaked the reference of a pointer it
 refused

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 923888d..21a3669 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -374,8 +374,8 @@ namespace asyncpp {
 		 * \throw std::logic_error if the pointer value collides with the lock_mask
 		 */
 		ref<T> exchange(ref<T> hdl) {
+			if ((reinterpret_cast<uintptr_t>(hdl.get()) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 			auto ptr = hdl.release();
-			if ((reinterpret_cast<uintptr_t>(ptr) & lock_mask) != 0) throw std::logic_error("invalid pointer");
 
 			// Lock the current pointer value
 			auto val = lock();
-- 
2.43.0


From 1ec1caff5ff0f0a0d67129cd76af014427a2d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 28/67] fix: signal::prepend did not compile

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 68b3b77..d3317ab 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -345,7 +345,7 @@ namespace asyncpp {
 			m_head = new_node;
 		} else {
 			m_head = new_node;
-			m_tail = new_node;
+			m_tail = new_node.get();
 		}
 		return handle(static_ref_cast<detail::signal_node_base>(new_node));
 	}
-- 
2.43.0


From cc105667b3cb7c1d03e03b77ead1045f2bdd2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 29/67] fix: signal move assignment did not return

---
 include/asyncpp/signal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index d3317ab..c497b72 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -291,6 +291,7 @@ namespace asyncpp {
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
 		m_current_counter.store(other.m_current_counter.exchange(1));
+		return *this;
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From 03eeb91d4a04dacea123f0aca21372f254f3dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 30/67] fix: signal emission called subscribers added during it

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index c497b72..5e14514 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -386,7 +386,7 @@ namespace asyncpp {
 
 		const auto counter = m_current_counter.load(std::memory_order_acquire);
 		do {
-			if (node->counter != detail::signal_removed_counter && counter >= node->counter) {
+			if (node->counter != detail::signal_removed_counter && counter > node->counter) {
 				node->invoke(params...);
 				++ninvoked;
 			}
-- 
2.43.0


From 70181c5f275c812e237138ed398062a1be8d675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 31/67] fix: scoped_signal_handle assignment kept the old
 subscriber and dropped the new one

---
 include/asyncpp/signal.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 5e14514..926ff87 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -71,7 +71,17 @@ namespace asyncpp {
 		scoped_signal_handle(ref<detail::signal_node_base> hdl = {}) : m_handle(std::move(hdl)) {}
 		//NOLINTNEXTLINE(google-explicit-constructor)
 		scoped_signal_handle(signal_handle hdl) : m_handle(std::move(hdl)) {}
+		scoped_signal_handle(const scoped_signal_handle&) = delete;
+		scoped_signal_handle(scoped_signal_handle&& other) noexcept : m_handle(std::move(other.m_handle)) {}
 		~scoped_signal_handle() noexcept { m_handle.disconnect(); }
+		scoped_signal_handle& operator=(const scoped_signal_handle&) = delete;
+		scoped_signal_handle& operator=(scoped_signal_handle&& other) noexcept {
+			if (this != &other) {
+				m_handle.disconnect();
+				m_handle = std::move(other.m_handle);
+			}
+			return *this;
+		}
 		explicit operator bool() const noexcept { return valid(); }
 		[[nodiscard]] bool operator!() const noexcept { return !valid(); }
 		[[nodiscard]] bool valid() const noexcept { return m_handle.valid(); }
-- 
2.43.0


From cef25b3cc7fed5aeda3629b4e0b634ee9237aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 32/67] fix: signal unlinked nodes twice and accepted foreign
 handles

---
 include/asyncpp/signal.h | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 926ff87..9d71d8e 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -178,12 +178,24 @@ namespace asyncpp {
 			return result;
 		}
 
+		ref<node> find_node(const handle& hdl) const noexcept {
+			if (!hdl.m_node) return {};
+			auto node = m_head;
+			while (node && node.get() != hdl.m_node.get()) {
+				node = node->next;
+			}
+			return node;
+		}
+
 		void free_node(ref<node>& node) const noexcept {
+			node->counter = detail::signal_removed_counter;
+			// Removed nodes keep their next pointer for running emissions, make sure we only unlink them once.
+			if (m_head != node && node->previous == nullptr) return;
 			if (node->next) { node->next->previous = node->previous; }
 			if (node->previous) { node->previous->next = node->next; }
-			node->counter = detail::signal_removed_counter;
 			if (m_head == node) m_head = node->next;
-			if (m_tail == node) m_tail = node->previous;
+			if (m_tail == node.get()) m_tail = node->previous;
+			node->previous = nullptr;
 		}
 	};
 
@@ -363,23 +375,20 @@ namespace asyncpp {
 
 	template<typename... TParams, typename TTraits>
 	inline bool signal<void(TParams...), TTraits>::remove(const handle& hdl) {
-		auto node = static_ref_cast<signal::node>(hdl.m_node);
-		if (!node) return false;
+		ref<signal::node> node{};
 		std::lock_guard lck{m_mutex};
+		node = find_node(hdl);
+		if (!node) return false;
+		const auto connected = node->counter.exchange(detail::signal_removed_counter) != detail::signal_removed_counter;
 		free_node(node);
-		return true;
+		return connected;
 	}
 
 	template<typename... TParams, typename TTraits>
 	inline bool signal<void(TParams...), TTraits>::owns_handle(const handle& hdl) const {
-		auto node = static_ref_cast<signal::node>(hdl.m_node);
-		if (!node || node->counter == detail::signal_removed_counter) return false;
+		if (!hdl.valid()) return false;
 		std::lock_guard lck{m_mutex};
-		auto handle = m_head;
-		while (handle && handle != node) {
-			handle = handle->next;
-		}
-		return node == handle;
+		return !!find_node(hdl);
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From f7479815b8dd57baf9da25d80bb81843d1a96a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 33/67] fix: signal destruction and assignment left handles
 valid and destroyed callbacks under the lock

---
 include/asyncpp/signal.h | 62 ++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 9d71d8e..f3db6cf 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -187,6 +187,25 @@ namespace asyncpp {
 			return node;
 		}
 
+		static void mark_removed(ref<node> node) noexcept {
+			while (node) {
+				node->counter = detail::signal_removed_counter;
+				node->previous = nullptr;
+				node = node->next;
+			}
+		}
+
+		void release_nodes(ref<node> node) noexcept {
+			while (node) {
+				ref<signal::node> next{};
+				{
+					std::lock_guard lck(m_mutex);
+					next = std::exchange(node->next, nullptr);
+				}
+				node = std::move(next);
+			}
+		}
+
 		void free_node(ref<node>& node) const noexcept {
 			node->counter = detail::signal_removed_counter;
 			// Removed nodes keep their next pointer for running emissions, make sure we only unlink them once.
@@ -300,33 +319,23 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 	inline signal<void(TParams...), TTraits>& signal<void(TParams...), TTraits>::operator=(signal&& other) {
-		std::scoped_lock lck{m_mutex, other.m_mutex};
-		auto node = m_head;
-		m_head.reset();
-		while (node) {
-			auto next = node->next;
-			node->previous = nullptr;
-			node->next.reset();
-			node = next;
+		if (this == &other) return *this;
+		ref<node> old{};
+		{
+			std::scoped_lock lck{m_mutex, other.m_mutex};
+			old = std::exchange(m_head, std::exchange(other.m_head, nullptr));
+			m_tail = std::exchange(other.m_tail, nullptr);
+			m_current_counter.store(other.m_current_counter.exchange(1));
+			mark_removed(old);
 		}
-		assert(!node);
-		m_head = std::exchange(other.m_head, nullptr);
-		m_tail = std::exchange(other.m_tail, nullptr);
-		m_current_counter.store(other.m_current_counter.exchange(1));
+		release_nodes(std::move(old));
 		return *this;
 	}
 
 	template<typename... TParams, typename TTraits>
 	inline signal<void(TParams...), TTraits>::~signal() {
-		auto node = m_head;
-		m_head.reset();
-		while (node) {
-			auto next = node->next;
-			node->previous = nullptr;
-			node->next.reset();
-			node = next;
-		}
-		assert(!node);
+		mark_removed(m_head);
+		release_nodes(std::exchange(m_head, nullptr));
 	}
 
 	template<typename... TParams, typename TTraits>
@@ -410,9 +419,14 @@ namespace asyncpp {
 				++ninvoked;
 			}
 
-			std::lock_guard lck(m_mutex);
-			if (node->counter == detail::signal_removed_counter) { free_node(node); }
-			node = node->next;
+			// Do not release the node (and thus destroy the callback) while holding the lock
+			ref<signal::node> next{};
+			{
+				std::lock_guard lck(m_mutex);
+				if (node->counter == detail::signal_removed_counter) { free_node(node); }
+				next = node->next;
+			}
+			node = std::move(next);
 		} while (node);
 		return ninvoked;
 	}
-- 
2.43.0


From a6366ead9cc640900ca603e11655d43e55abb26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:27 +0000
Subject: [PATCH 34/67] fix: signal_manager move operations were declared but
 not defined

---
 include/asyncpp/signal.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index f3db6cf..a70fd1d 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -236,9 +236,19 @@ namespace asyncpp {
 
 		signal_manager() = default;
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
-		signal_manager(signal_manager&&);
+		signal_manager(signal_manager&& other) {
+			std::unique_lock lck{other.m_mutex};
+			m_mapping.swap(other.m_mapping);
+		}
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
-		signal_manager& operator=(signal_manager&&);
+		signal_manager& operator=(signal_manager&& other) {
+			if (this == &other) return *this;
+			decltype(m_mapping) old;
+			std::scoped_lock lck{m_mutex, other.m_mutex};
+			old.swap(m_mapping);
+			m_mapping.swap(other.m_mapping);
+			return *this;
+		}
 		signal_manager(const signal_manager&) = delete;
 		signal_manager& operator=(const signal_manager&) = delete;
 
-- 
2.43.0


From 7e11533b17f50be2463a4b6b69df146712f6a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 35/67] fix: signal_manager locking

---
 include/asyncpp/signal.h | 61 +++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index a70fd1d..7c3a6b0 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -4,10 +4,12 @@
 #include <atomic>
 #include <cassert>
 #include <cstddef>
+#include <memory>
 #include <mutex>
 #include <shared_mutex>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 namespace asyncpp {
 	struct signal_traits_mt {
@@ -254,66 +256,67 @@ namespace asyncpp {
 
 		template<typename FN>
 		handle append(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.append(std::forward<decltype(fncb)>(fncb));
+			return with_slot(event, [&fncb](signal_type& sig) { return sig.append(std::forward<FN>(fncb)); });
 		}
 		template<typename FN>
 		handle prepend(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.prepend(std::forward<decltype(fncb)>(fncb));
+			return with_slot(event, [&fncb](signal_type& sig) { return sig.prepend(std::forward<FN>(fncb)); });
 		}
 
 		bool remove(event_type event, const handle& hdl) {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.remove(hdl);
+			auto slot = find_slot(event);
+			return slot && slot->remove(hdl);
 		}
 
 		bool owns_handle(event_type event, const handle& hdl) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.owns_handle(hdl);
+			auto slot = find_slot(event);
+			return slot && slot->owns_handle(hdl);
 		}
 
 		size_t invoke(event_type event, const TParams&... params) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			if (iter == m_mapping.end()) return 0;
-			return iter->second(params...);
+			auto slot = find_slot(event);
+			return slot ? (*slot)(params...) : 0;
 		}
 
 		size_t operator()(event_type event, const TParams&... params) const { return invoke(event, params...); }
 
 		size_t shrink_to_fit() {
+			// Destroyed after unlocking, because that might invoke destructors of removed callbacks
+			std::vector<std::shared_ptr<signal_type>> unused{};
 			std::unique_lock lck{m_mutex};
-			size_t res = 0;
 			for (auto it = m_mapping.begin(); it != m_mapping.end();) {
-				if (it->second.empty()) {
-					res++;
+				if (it->second->empty()) {
+					unused.emplace_back(std::move(it->second));
 					it = m_mapping.erase(it);
 				} else
 					it++;
 			}
-			return res;
+			return unused.size();
 		}
 
 	private:
 		mutable std::shared_mutex m_mutex{};
-		std::unordered_map<event_type, signal_type> m_mapping;
+		std::unordered_map<event_type, std::shared_ptr<signal_type>> m_mapping;
 
-		auto find_or_create_slot(event_type evt) {
+		// The slot is used without holding the lock, callbacks are free to use the manager.
+		std::shared_ptr<signal_type> find_slot(const event_type& evt) const {
 			std::shared_lock lck{m_mutex};
 			auto iter = m_mapping.find(evt);
-			if (iter == m_mapping.end()) {
-				lck.unlock();
-				std::unique_lock unique{m_mutex};
-				iter = m_mapping.find(evt);
-				if (iter != m_mapping.end()) return iter;
-				iter = m_mapping.emplace(evt, signal_type{}).first;
+			return iter != m_mapping.end() ? iter->second : nullptr;
+		}
+
+		// Invoke fn with the slot, creating it if needed. Holds the lock, so that shrink_to_fit does not remove it.
+		template<typename FN>
+		handle with_slot(const event_type& evt, const FN& fncb) {
+			{
+				std::shared_lock lck{m_mutex};
+				auto iter = m_mapping.find(evt);
+				if (iter != m_mapping.end()) return fncb(*iter->second);
 			}
-			return iter;
+			std::unique_lock lck{m_mutex};
+			auto& slot = m_mapping[evt];
+			if (!slot) slot = std::make_shared<signal_type>();
+			return fncb(*slot);
 		}
 	};
 
-- 
2.43.0


From 8442f5616eb6678cd912e824afcad876b9748c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:54 +0000
Subject: [PATCH 36/67] fix: generator of references did not compile

---
 include/asyncpp/generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/generator.h b/include/asyncpp/generator.h
index 7f94e89..4b0818f 100644
--- a/include/asyncpp/generator.h
+++ b/include/asyncpp/generator.h
@@ -51,7 +51,7 @@ namespace asyncpp {
 			suspend_never await_transform(U&& value) = delete;
 
 		private:
-			T* m_value{nullptr};
+			pointer_type m_value{nullptr};
 			std::exception_ptr m_exception{nullptr};
 		};
 
-- 
2.43.0


From ee7dd0ab19bab3fd3241475cdea0f17fd65a5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 37/67] fix: allocator stored with a coroutine frame was never
 destroyed

---
 include/asyncpp/detail/promise_allocator_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index 66939c0..f3eeb01 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -42,6 +42,7 @@ namespace asyncpp::detail {
 			} else {
 				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
 				auto alloc = std::move(*info);
+				info->~allocator_type();
 				std::allocator_traits<allocator_type>::deallocate(
 					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
 			}
-- 
2.43.0


From 17e709c2ed030a718ae7dc1bd07a263406e38685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 38/67] fix: coroutine frames were misaligned with stateful
 allocators

---
 .../asyncpp/detail/promise_allocator_base.h   | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index f3eeb01..0f556e8 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -2,7 +2,13 @@
 #include <asyncpp/detail/concepts.h>
 #include <asyncpp/detail/parameter_pack.h>
 #include <asyncpp/detail/std_import.h>
+#include <algorithm>
+#include <cstddef>
+#include <cstdint>
+#include <memory>
+#include <new>
 #include <type_traits>
+#include <utility>
 
 namespace asyncpp {
 #ifndef ASYNCPP_DEFAULT_ALLOCATOR
@@ -18,6 +24,18 @@ namespace asyncpp::detail {
 	public:
 		using allocator_type = Allocator;
 
+	private:
+		// Stateful allocators are stored directly in front of the frame. The allocated memory is only
+		// guaranteed to be suitable for std::byte, so reserve enough space to align both of them.
+		struct header {
+			allocator_type alloc;
+			size_t offset; // Offset of the frame inside the allocated memory
+		};
+		static constexpr size_t frame_alignment = (std::max)(size_t{__STDCPP_DEFAULT_NEW_ALIGNMENT__}, alignof(header));
+		static constexpr size_t header_space = sizeof(header) + frame_alignment - 1;
+
+	public:
+
 		template<typename... Args>
 		void* operator new(size_t size, Args&&... args) {
 			if constexpr (std::allocator_traits<allocator_type>::is_always_equal::value) {
@@ -29,9 +47,11 @@ namespace asyncpp::detail {
 				static_assert(std::is_convertible_v<std::remove_cvref_t<decltype(alloc)>&, allocator_type> ||
 								  std::is_constructible_v<allocator_type, decltype(alloc)>,
 							  "last argument is not of allocator type");
-				auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, size + sizeof(allocator_type));
-				auto aptr = new (ptr) allocator_type{std::move(alloc)};
-				return aptr + 1;
+				std::byte* ptr = std::allocator_traits<allocator_type>::allocate(alloc, size + header_space);
+				const auto end = reinterpret_cast<uintptr_t>(ptr) + header_space;
+				const size_t offset = header_space - (end & (frame_alignment - 1));
+				new (ptr + offset - sizeof(header)) header{std::move(alloc), offset};
+				return ptr + offset;
 			}
 		}
 		void operator delete(void* ptr, size_t size) {
@@ -40,11 +60,11 @@ namespace asyncpp::detail {
 				allocator_type alloc{};
 				std::allocator_traits<allocator_type>::deallocate(alloc, static_cast<std::byte*>(ptr), size);
 			} else {
-				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
-				auto alloc = std::move(*info);
-				info->~allocator_type();
-				std::allocator_traits<allocator_type>::deallocate(
-					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
+				header* info = static_cast<header*>(ptr) - 1;
+				auto base = static_cast<std::byte*>(ptr) - info->offset;
+				auto alloc = std::move(info->alloc);
+				info->~header();
+				std::allocator_traits<allocator_type>::deallocate(alloc, base, size + header_space);
 			}
 		}
 	};
-- 
2.43.0


From d1a7aaa87ed7f747df1f02d075ade8cd0cd7658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 39/67] fix: fiber was accessed after it got suspended

---
 include/asyncpp/fiber.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 5e84505..f506398 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -733,7 +733,8 @@ namespace asyncpp::detail {
 		assert(static_cast<void*>(hndl) == static_cast<void*>(&hndl->resume_cb));
 		hndl->resume_cb = [](fiber_handle_base* hndl) {
 			auto old = std::exchange(g_current_fiber, hndl);
-			while (hndl->resume_cb != nullptr) {
+			bool suspended = false;
+			while (!suspended && hndl->resume_cb != nullptr) {
 #if ASYNCPP_HAS_ASAN
 				void* asan_handle;
 				__sanitizer_start_switch_fiber(&asan_handle, hndl->fiber_stack.mmap_base, hndl->fiber_stack.mmap_size);
@@ -754,11 +755,13 @@ namespace asyncpp::detail {
 					auto handler = std::exchange(hndl->suspend_handler, nullptr);
 					auto ptr = std::exchange(hndl->suspend_handler_ptr, nullptr);
 					try {
-						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) break;
+						suspended = handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)));
 					} catch (...) { hndl->suspend_exception = std::current_exception(); }
 				}
 			}
 			g_current_fiber = old;
+			// Once suspended the fiber might already run on a different thread or be gone, so it must not be touched
+			if (suspended) return;
 			if (hndl->resume_cb == nullptr && hndl->continuation != nullptr) { hndl->continuation.resume(); }
 		};
 		hndl->destroy_cb = [](fiber_handle_base* hndl) {
-- 
2.43.0


From 58ec56b728096552b3778a67c33d0acd8c7a57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 40/67] fix: destroying a suspended fiber resumed the awaiting
 coroutine

---
 include/asyncpp/fiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index f506398..c87e675 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -768,6 +768,8 @@ namespace asyncpp::detail {
 			// Signal destruction and resume, then delete self
 			if (hndl->resume_cb != nullptr && hndl->was_started) {
 				hndl->want_destroy = true;
+				// The coroutine awaiting this fiber must not be resumed, because it did not finish
+				hndl->continuation = nullptr;
 				hndl->resume_cb(hndl);
 				assert(hndl->resume_cb == nullptr);
 			}
-- 
2.43.0


From d042e5dc88926967d419eda92d3f54dcb1fc0742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 41/67] fix: fiber could suspend again while being destroyed

---
 include/asyncpp/fiber.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index c87e675..a85b175 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -849,6 +849,9 @@ namespace asyncpp::detail {
 			// await_suspend (which need to get rethrown in the fiber).
 			auto hndl = detail::g_current_fiber;
 			assert(hndl != nullptr);
+			// The fiber is being destroyed and nobody would ever resume it again
+			// NOLINTNEXTLINE(hicpp-exception-baseclass)
+			if (hndl->want_destroy) throw fiber_destroy_requested_exception{};
 #ifdef __linux__
 			assert(__builtin_frame_address(0) > hndl->fiber_stack.mmap_base);
 			assert(__builtin_frame_address(0) <
-- 
2.43.0


From 7616db5fd942218bb4c40861beaa6e819fa4151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 42/67] fix: fiber<void> kept a reference to lvalue callables

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index a85b175..64d776d 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -723,7 +723,7 @@ namespace asyncpp::detail {
 	template<typename FN>
 	static coroutine_handle<> make_fiber_handle(size_t stack_size, FN&& cbfn) {
 		struct handle : fiber_handle_base {
-			FN function;
+			std::decay_t<FN> function;
 			explicit handle(FN&& cbfn) : function(std::forward<FN>(cbfn)) {}
 		};
 
-- 
2.43.0


From f4612eef5625b77e2c5e7591ce6579e47505210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 43/67] fix: fiber switches mixed up the exceptions being
 handled

---
 include/asyncpp/fiber.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 64d776d..e81a76d 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -18,6 +18,7 @@
 
 #ifndef _WIN32
 
+#include <cxxabi.h>
 #include <sys/mman.h>
 #include <unistd.h>
 
@@ -41,6 +42,28 @@ namespace asyncpp::detail {
 		size_t mmap_size;
 	};
 
+	/**
+	 * \brief Exception handling state (exceptions currently caught and in flight) of a fiber.
+	 * The C++ runtime keeps this per thread, but it belongs to whatever stack is active.
+	 */
+	struct fiber_exception_state {
+		// Layout of __cxa_eh_globals as specified by the Itanium C++ ABI
+		void* caught_exceptions = nullptr;
+		unsigned int uncaught_exceptions = 0;
+#ifdef __ARM_EABI_UNWINDER__
+		void* propagating_exceptions = nullptr;
+#endif
+
+		/// \brief Exchange this with the state of the current thread
+		void swap() noexcept {
+			auto* const globals = abi::__cxa_get_globals();
+			fiber_exception_state current;
+			memcpy(static_cast<void*>(&current), globals, sizeof(fiber_exception_state));
+			memcpy(static_cast<void*>(globals), this, sizeof(fiber_exception_state));
+			*this = current;
+		}
+	};
+
 	inline bool fiber_allocate_stack(stack_context& ctx, size_t size) noexcept {
 		static size_t pagesize = sysconf(_SC_PAGESIZE);
 
@@ -602,6 +625,11 @@ namespace asyncpp::detail {
 #include <windows.h>
 
 namespace asyncpp::detail {
+	struct fiber_exception_state {
+		// WinFiber switches this itself
+		void swap() noexcept {}
+	};
+
 	struct stack_context {
 		// WinFiber manages the stack itself, so we only need the size
 		size_t stack_size;
@@ -682,6 +710,7 @@ namespace asyncpp::detail {
 		detail::fiber_context main_context{};
 		detail::fiber_context fiber_context{};
 		detail::stack_context fiber_stack{};
+		detail::fiber_exception_state exception_state{};
 
 		bool (*suspend_handler)(void* ptr, coroutine_handle<> hndl) = nullptr;
 		void* suspend_handler_ptr = nullptr;
@@ -743,7 +772,9 @@ namespace asyncpp::detail {
 				hndl->tsan_parent = __tsan_get_current_fiber();
 				__tsan_switch_to_fiber(hndl->tsan_fiber, 0);
 #endif
+				hndl->exception_state.swap();
 				detail::fiber_swapcontext(&hndl->main_context, &hndl->fiber_context);
+				hndl->exception_state.swap();
 #if ASYNCPP_HAS_ASAN
 				const void* fiber_stack;
 				size_t fiber_stack_size;
-- 
2.43.0


From 4e48fe348d5057c8006f9b188e6e21b549acd16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 44/67] fix: fibers started with all floating point exceptions
 unmasked

---
 include/asyncpp/fiber.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index e81a76d..0b344cb 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -178,6 +178,8 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point environment of the caller, zero would unmask all floating point exceptions
+		asm volatile("stmxcsr %0\n\tfnstcw %1" : "=m"(frame->mmx_cw), "=m"(frame->x87_cw));
 		assert((reinterpret_cast<uintptr_t>(sp) % 16) == 0xc);
 #elif defined(__x86_64__)
 		// The restore code adds 72 byte and ret another 8. Since we want
@@ -206,6 +208,8 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point environment of the caller, zero would unmask all floating point exceptions
+		asm volatile("stmxcsr %0\n\tfnstcw %1" : "=m"(frame->mmx_cw), "=m"(frame->x87_cw));
 #elif defined(__arm__)
 		// Stack needs to be 64bit aligned for vstmia
 		sp -= 16;
-- 
2.43.0


From de9b1e7a5a69edee9e12412b0e41d5775b760242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 45/67] fix: fibers could run without guard pages

---
 include/asyncpp/fiber.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 0b344cb..9abf628 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -82,10 +82,12 @@ namespace asyncpp::detail {
 		if (stack == MAP_FAILED) return false;
 
 		// Protect a page at the bottom and top to cause fault on stack over/underflow
-		[[maybe_unused]] auto res = ::mprotect(stack, pagesize, PROT_NONE);
-		assert(res == 0);
-		res = ::mprotect(static_cast<std::byte*>(stack) + size + pagesize, pagesize, PROT_NONE);
-		assert(res == 0);
+		if (::mprotect(stack, pagesize, PROT_NONE) != 0 ||
+			::mprotect(static_cast<std::byte*>(stack) + size + pagesize, pagesize, PROT_NONE) != 0) {
+			// This can fail if there are too many mappings, don't run without guards
+			::munmap(stack, alloc_size);
+			return false;
+		}
 
 		ctx.stack = static_cast<std::byte*>(stack) + size + pagesize;
 		ctx.stack_size = size;
-- 
2.43.0


From 99e0a71bb7d6d8b0ee50e16b7d146862f1ba6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 46/67] fix: stack protector value was restored to the wrong
 address

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 9abf628..b52b0e3 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -390,7 +390,7 @@ namespace asyncpp::detail {
 			"fldcw   0x4(%rsp)\n" // Restore x87 control-word
 #ifdef SAVE_TLS_STACK_PROTECTOR
 			"movq 0x8(%rsp), %rcx\n" // Restore stack guard to TLS record
-			"movq %rcx, %fs:28\n"
+			"movq %rcx, %fs:0x28\n"
 #endif
 			// Restore callee saved registers
 			"movq  0x10(%rsp), %r12\n"
-- 
2.43.0


From dd0daca9b21191dea7ba5d1bd6bbd5b087f831c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 47/67] fix: ThreadSanitizer was not detected with gcc

---
 include/asyncpp/detail/sanitizers.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/detail/sanitizers.h b/include/asyncpp/detail/sanitizers.h
index ee77233..8df2fad 100644
--- a/include/asyncpp/detail/sanitizers.h
+++ b/include/asyncpp/detail/sanitizers.h
@@ -1,12 +1,13 @@
 #pragma once
 
+// Note: The sanitizer headers of gcc define __has_feature(x) to 0, and libstdc++ might include them
 #ifndef ASYNCPP_HAS_ASAN
-#if defined(__has_feature)
+#if defined(__SANITIZE_ADDRESS__)
+#define ASYNCPP_HAS_ASAN 1
+#elif defined(__has_feature)
 #if __has_feature(address_sanitizer)
 #define ASYNCPP_HAS_ASAN 1
 #endif
-#elif defined(__SANITIZE_ADDRESS__)
-#define ASYNCPP_HAS_ASAN 1
 #endif
 #endif
 #ifndef ASYNCPP_HAS_ASAN
@@ -17,12 +18,12 @@
 #endif
 
 #ifndef ASYNCPP_HAS_TSAN
-#if defined(__has_feature)
+#if defined(__SANITIZE_THREAD__)
+#define ASYNCPP_HAS_TSAN 1
+#elif defined(__has_feature)
 #if __has_feature(thread_sanitizer)
 #define ASYNCPP_HAS_TSAN 1
 #endif
-#elif defined(__SANITIZE_THREAD__)
-#define ASYNCPP_HAS_TSAN 1
 #endif
 #endif
 #ifndef ASYNCPP_HAS_TSAN
-- 
2.43.0


From 83784e2e2744f1db9b5b371f508efd4a305b94e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 48/67] fix: co_await of a fiber rvalue copied the result

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index b52b0e3..50ec2f6 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -1127,7 +1127,7 @@ namespace asyncpp {
 		 * \brief Get an awaitable for this fiber.
 		 * \return auto An awaiter that is resumed once the fiber finishes
 		 */
-		auto operator co_await() && { return await(); }
+		auto operator co_await() && { return std::move(*this).await(); }
 	};
 
 	template<typename FN>
-- 
2.43.0


From 5d111c48b417fa290e64c1855d1d700e1e508428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 49/67] fix: signal kept a reference to const lvalue callables

append(), prepend() and operator+= deduced a reference type for lvalue
callables. Const ones were stored by reference and dangled afterwards,
others did not compile. Store a copy instead.
---
 include/asyncpp/signal.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 7c3a6b0..88f66fb 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -122,7 +122,8 @@ namespace asyncpp {
 			~node_impl() noexcept = default;
 			void invoke(const TParams&... params) override { m_fn(params...); }
 			[[no_unique_address]] FN m_fn;
-			explicit node_impl(FN&& fncb) : m_fn(std::move(fncb)) {}
+			template<typename U>
+			explicit node_impl(U&& fncb) : m_fn(std::forward<U>(fncb)) {}
 		};
 
 	public:
@@ -366,7 +367,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::append(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->previous = m_tail;
@@ -382,7 +383,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::prepend(FN&& fncb) {
-		ref<node> new_node(new node_impl<FN>(std::forward<decltype(fncb)>(fncb)));
+		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
 		new_node->counter = get_next_counter();
 		if (std::lock_guard lck{m_mutex}; m_head) {
 			new_node->next = m_head;
-- 
2.43.0


From 9504c8d3a9048471cc04d84fe7b0b4f9ce169815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 50/67] fix: simple_dispatcher::run() left itself as the
 current dispatcher when a task threw

---
 include/asyncpp/simple_dispatcher.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index a57cfcc..d70e7f3 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -42,7 +42,11 @@ namespace asyncpp {
          * \brief Block and process tasks pushed to it until stop is called.
          */
 		void run() {
-			dispatcher* const old_dispatcher = dispatcher::current(this);
+			// NOTE: Restores the previous dispatcher even if a task throws
+			struct restore_current {
+				dispatcher* const previous;
+				~restore_current() { dispatcher::current(previous); }
+			} const restore{dispatcher::current(this)};
 			while (true) {
 				std::unique_lock lck{m_mtx};
 				// NOTE: m_done needs to be checked with the lock held to not miss the notification
@@ -54,7 +58,6 @@ namespace asyncpp {
 				lck.unlock();
 				if (cbfn) cbfn();
 			}
-			dispatcher::current(old_dispatcher);
 		}
 	};
 } // namespace asyncpp
-- 
2.43.0


From f72bdf10933175606ea8d2addc473ff548f48e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 51/67] fix: timer work that keeps renewing itself starved
 everything else

---
 include/asyncpp/timer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index fa987f3..f80144e 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -311,7 +311,9 @@ namespace asyncpp {
 			dispatcher::current(this);
 			std::unique_lock lck(m_mtx);
 			while (true) {
-				while (!m_pushed.empty()) {
+				// NOTE: Every round handles only what is there when it starts, so that callbacks which keep
+				//       pushing or scheduling new work can not hold up everything else.
+				for (auto count = m_pushed.size(); count != 0 && !m_pushed.empty(); count--) {
 					auto entry = std::move(m_pushed.front());
 					m_pushed.pop();
 					lck.unlock();
@@ -324,7 +326,7 @@ namespace asyncpp {
 					entry = nullptr;
 					lck.lock();
 				}
-				while (!m_cancelled_set.empty()) {
+				for (auto count = m_cancelled_set.size(); count != 0 && !m_cancelled_set.empty(); count--) {
 					auto handle = m_cancelled_set.extract(m_cancelled_set.begin());
 					lck.unlock();
 					invoke_entry(std::move(handle), false);
-- 
2.43.0


From 1f4a9d414ccda76f7c3258c56570e160854ec98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 52/67] fix: promise was left without a state when the
 constructor of the value threw

---
 include/asyncpp/promise.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index a9757e9..2f2cb46 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -33,7 +33,13 @@ namespace asyncpp {
 			bool try_fulfill(auto&& value) {
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
-				m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				try {
+					m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				} catch (...) {
+					// NOTE: emplace() leaves the variant without a value if the constructor throws
+					m_value.template emplace<pending_index>();
+					throw;
+				}
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
-- 
2.43.0


From cece5705850d5e99b20e6609341c040df594dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 53/67] fix: promise state was destroyed while its callbacks
 were still called

---
 include/asyncpp/promise.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 2f2cb46..c67738c 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -31,6 +31,8 @@ namespace asyncpp {
 			std::vector<std::function<void(const TError&)>> m_on_reject{};
 
 			bool try_fulfill(auto&& value) {
+				// NOTE: A callback might destroy the last handle
+				const ref<promise_state> self{this};
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
 				try {
@@ -62,6 +64,8 @@ namespace asyncpp {
 			}
 
 			bool try_reject(auto&& value) {
+				// NOTE: A callback might destroy the last handle
+				const ref<promise_state> self{this};
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
 				m_value.template emplace<rejected_index>(std::forward<decltype(value)>(value));
@@ -87,6 +91,7 @@ namespace asyncpp {
 			}
 
 			void then(std::function<void(const T&)> then_cb, std::function<void(const TError&)> catch_cb) {
+				const ref<promise_state> self{this};
 				std::unique_lock lck{m_mtx};
 				switch (m_value.index()) {
 				case pending_index:
-- 
2.43.0


From be8a566e97f1d217db578bb8de727f9fe9515408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 54/67] fix: promise destroyed callbacks with its mutex held

---
 include/asyncpp/promise.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index c67738c..8fa9655 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -45,6 +45,8 @@ namespace asyncpp {
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
+				// NOTE: Destroy them without the lock, because their destructors might use the promise
+				const auto reject_cbs = std::move(m_on_reject);
 				m_on_settle.clear();
 				m_on_fulfill.clear();
 				m_on_reject.clear();
@@ -72,6 +74,8 @@ namespace asyncpp {
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto reject_cbs = std::move(m_on_reject);
+				// NOTE: Destroy them without the lock, because their destructors might use the promise
+				const auto fulfill_cbs = std::move(m_on_fulfill);
 				m_on_settle.clear();
 				m_on_fulfill.clear();
 				m_on_reject.clear();
-- 
2.43.0


From 0cfc1eb252e5ed9cb5622d8891a524e17cb2b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 55/67] fix: queue lost a waiting pop when the construction of
 the value threw

---
 include/asyncpp/queue.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 6d35b5b..2997ed9 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -104,7 +104,7 @@ namespace asyncpp {
 		friend class queue<T, TContainer>::push_awaiter;
 		friend class queue<T, TContainer>;
 
-		void resume(T&& value);
+		void resume();
 
 	public:
 		explicit pop_awaiter(queue* parent) noexcept : m_parent(parent) {}
@@ -229,11 +229,13 @@ namespace asyncpp {
 		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
-			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
+			// NOTE: This might throw, in which case the task has to keep waiting
+			awaiter->m_result.emplace(std::forward<T>(value));
+			m_pop_list = awaiter->m_next;
 			lck.unlock();
-			awaiter->resume(std::forward<T>(value));
+			awaiter->resume();
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.push(std::forward<T>(value));
@@ -249,11 +251,13 @@ namespace asyncpp {
 		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
-			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
+			// NOTE: This might throw, in which case the task has to keep waiting
+			awaiter->m_result.emplace(T(std::forward<Args>(args)...));
+			m_pop_list = awaiter->m_next;
 			lck.unlock();
-			awaiter->resume(T(std::forward<Args>(args)...));
+			awaiter->resume();
 		} else {
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
@@ -311,11 +315,8 @@ namespace asyncpp {
 	}
 
 	template<typename T, typename TContainer>
-	inline void queue<T, TContainer>::pop_awaiter::resume(T&& value) {
+	inline void queue<T, TContainer>::pop_awaiter::resume() {
 		// NOTE: Because we do not update the m_parent variable in move constructors we can not use it here
-		// Move the value right to this awaiter
-		m_result.emplace(std::forward<T>(value));
-		// And resume
 		if (m_dispatcher != nullptr)
 			m_dispatcher->push([this]() { m_handle.resume(); });
 		else
@@ -384,9 +385,11 @@ namespace asyncpp {
 		if (m_parent->m_pop_list != nullptr) {
 			assert(m_parent->m_queue.empty());
 			auto awaiter = m_parent->m_pop_list;
+			// NOTE: This might throw, in which case the task has to keep waiting
+			awaiter->m_result.emplace(std::move(m_value));
 			m_parent->m_pop_list = awaiter->m_next;
 			lck.unlock();
-			awaiter->resume(std::move(m_value));
+			awaiter->resume();
 			return true;
 		}
 		// If there is space in the queue push to it
-- 
2.43.0


From 73d2956fdfb2d554ffde79c7ba5c1eadc14005b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 56/67] fix: queue destroyed its values with the mutex held,
 moving it to itself locked the mutex twice

---
 include/asyncpp/queue.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 2997ed9..97fdc26 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -171,10 +171,14 @@ namespace asyncpp {
 
 	template<typename T, typename TContainer>
 	inline queue<T, TContainer>& queue<T, TContainer>::operator=(queue&& other) noexcept {
+		if (this == &other) return *this;
 		pop_awaiter* old_pop = nullptr;
 		push_awaiter* old_push = nullptr;
 		{
+			// NOTE: The values are destroyed without the lock, because their destructor might use the queue
+			decltype(m_queue) old_queue{};
 			std::scoped_lock lck(m_mtx, other.m_mtx);
+			std::swap(m_queue, old_queue);
 			m_queue = std::move(other.m_queue);
 			m_max_size = other.m_max_size;
 			m_dispatcher = other.m_dispatcher;
@@ -298,13 +302,16 @@ namespace asyncpp {
 
 	template<typename T, typename TContainer>
 	inline void queue<T, TContainer>::clear() {
-		std::unique_lock lck{m_mtx};
-		while (!m_queue.empty())
-			m_queue.pop();
-		// Check if there is someone waiting in push
-		auto push_list = m_push_list;
-		m_push_list = nullptr;
-		lck.unlock();
+		push_awaiter* push_list = nullptr;
+		{
+			// NOTE: The values are destroyed without the lock, because their destructor might use the queue
+			decltype(m_queue) old_queue{};
+			std::scoped_lock lck(m_mtx);
+			std::swap(m_queue, old_queue);
+			// Check if there is someone waiting in push
+			push_list = m_push_list;
+			m_push_list = nullptr;
+		}
 
 		while (push_list != nullptr) {
 			const auto await = push_list;
-- 
2.43.0


From 6a01fd2169d16e9a19cb128dd736552c76022102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 57/67] fix: channel lost a suspended reader or writer when
 moving the value threw

---
 include/asyncpp/channel.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index f679f45..e9bc1bb 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -144,11 +144,11 @@ namespace asyncpp {
 		std::unique_lock lck{m_mtx};
 		// Check if there is a writer waiting
 		if (auto wrt = m_writer_list; wrt != nullptr && !m_closed.load(std::memory_order::relaxed)) {
+			// Take the value out (if this throws the writer has to stay hooked)
+			std::optional<T> res = std::move(wrt->m_value);
 			// Unhook writer
 			m_writer_list = wrt->m_next;
 			lck.unlock();
-			// Take the value out
-			std::optional<T> res = std::move(wrt->m_value);
 			wrt->m_result = true;
 			// Resume writer
 			if (wrt->m_dispatcher != nullptr)
@@ -171,11 +171,11 @@ namespace asyncpp {
 		std::unique_lock lck{m_mtx};
 		// Check if there is a reader waiting
 		if (auto rdr = m_reader_list; rdr != nullptr && !m_closed.load(std::memory_order::relaxed)) {
+			// Copy the value over (if this throws the reader has to stay hooked)
+			rdr->m_result = std::move(value);
 			// Unhook reader
 			m_reader_list = rdr->m_next;
 			lck.unlock();
-			// Take the value out
-			rdr->m_result = std::move(value);
 			// Resume writer
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
@@ -232,11 +232,11 @@ namespace asyncpp {
 		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
+			// Take the value out (if this throws the writer has to stay hooked)
+			m_result = std::move(wrt->m_value);
 			// Unhook writer
 			m_parent->m_writer_list = wrt->m_next;
 			lck.unlock();
-			// Take the value out
-			m_result = std::move(wrt->m_value);
 			wrt->m_result = true;
 			// Resume writer
 			if (wrt->m_dispatcher != nullptr)
@@ -277,11 +277,11 @@ namespace asyncpp {
 		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a reader waiting
 		if (auto rdr = m_parent->m_reader_list; rdr != nullptr) {
+			// Copy the value over (if this throws the reader has to stay hooked)
+			rdr->m_result = std::move(m_value);
 			// Unhook reader
 			m_parent->m_reader_list = rdr->m_next;
 			lck.unlock();
-			// Copy the value over
-			rdr->m_result = std::move(m_value);
 			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
-- 
2.43.0


From 57c071c02336f7b0990e32d63e943cf35d43168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 58/67] fix: closing a channel resumed everybody with the mutex
 held

---
 include/asyncpp/channel.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index e9bc1bb..a97e8d2 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -7,6 +7,7 @@
 #include <cassert>
 #include <mutex>
 #include <optional>
+#include <utility>
 
 namespace asyncpp {
 
@@ -191,30 +192,31 @@ namespace asyncpp {
 		if (m_closed.load(std::memory_order::relaxed)) return;
 		std::unique_lock lck{m_mtx};
 		if (!m_closed.exchange(true)) {
-			// This is the first close, so cancel all waiting awaiters
-			while (m_reader_list != nullptr) {
-				auto rdr = m_reader_list;
-				m_reader_list = rdr->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
+			// This is the first close, so cancel all waiting awaiters. All further attempts to
+			// access this channel will get refused, so nobody is going to add to the lists.
+			auto rdr = std::exchange(m_reader_list, nullptr);
+			auto wrt = std::exchange(m_writer_list, nullptr);
+			// NOTE: A resumed coroutine might wait for a thread using the channel or destroy it
+			lck.unlock();
+			while (rdr != nullptr) {
+				auto next = rdr->m_next;
 				rdr->m_result.reset();
 				// Resume reader
 				if (rdr->m_dispatcher != nullptr)
 					rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
 				else
 					rdr->m_handle.resume();
+				rdr = next;
 			}
-			while (m_writer_list != nullptr) {
-				auto wrt = m_writer_list;
-				m_writer_list = wrt->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
+			while (wrt != nullptr) {
+				auto next = wrt->m_next;
 				wrt->m_result = false;
-				// Resume reader
+				// Resume writer
 				if (wrt->m_dispatcher != nullptr)
 					wrt->m_dispatcher->push([wrt]() { wrt->m_handle.resume(); });
 				else
 					wrt->m_handle.resume();
+				wrt = next;
 			}
 		}
 	}
-- 
2.43.0


From 2467cdd3b9f4f7c8c0136e16c6334a3b3c05f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 59/67] fix: thread_pool was broken after a failure to create a
 thread

---
 include/asyncpp/thread_pool.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 721f3f9..89b00b8 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -84,8 +84,21 @@ namespace asyncpp {
 				m_threads.resize(target_size);
 				threads_lck.unlock();
 				// We need some new threads, spawn them with the relevant indexes
-				for (size_t i = old; i < target_size; i++) {
-					m_threads[i] = std::make_unique<thread_state>(this, i);
+				size_t count = old;
+				try {
+					for (; count < target_size; count++) {
+						m_threads[count] = std::make_unique<thread_state>(this, count);
+					}
+				} catch (...) {
+					// The system is out of threads (or memory), go back to the old size
+					m_target_size = old;
+					for (size_t i = old; i < count; i++) {
+						m_threads[i]->cv.notify_all();
+						m_threads[i]->thread.join();
+					}
+					threads_lck.lock();
+					m_threads.resize(old);
+					throw;
 				}
 				// Allow pushing work to our new threads
 				m_valid_size = target_size;
-- 
2.43.0


From 53de172fd2de709c6fae367a1df3cfd5dc15ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 60/67] fix: thread_pool destroyed finished tasks with the
 mutex held

---
 include/asyncpp/thread_pool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 89b00b8..9f1cc66 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -161,6 +161,8 @@ namespace asyncpp {
 							queue.pop();
 							lck.unlock();
 							cbfn();
+							// NOTE: Destroy it without the lock, because the destructor might push
+							cbfn = nullptr;
 							lck.lock();
 						}
 					}
@@ -176,11 +178,12 @@ namespace asyncpp {
 				}
 				std::unique_lock lck{mutex};
 				while (!queue.empty()) {
-					auto& cbfn = queue.front();
+					auto cbfn = std::move(queue.front());
+					queue.pop();
 					lck.unlock();
 					cbfn();
+					cbfn = nullptr;
 					lck.lock();
-					queue.pop();
 				}
 				g_current_thread = nullptr;
 				dispatcher::current(nullptr);
-- 
2.43.0


From e9cab6957ca7934c6e790657089a416abb49592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 61/67] fix: signal took the counter of a new subscriber before
 the mutex

---
 include/asyncpp/signal.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 88f66fb..3856361 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -165,16 +165,14 @@ namespace asyncpp {
 		mutable node* m_tail{};
 		std::atomic<size_t> m_current_counter{1};
 
+		// NOTE: Requires m_mutex, because a concurrent move restarts the counter of the source
 		size_t get_next_counter() {
 			const auto result = m_current_counter.fetch_add(1, std::memory_order::seq_cst);
 			if (result == 0) { // overflow, let's reset all nodes' counters.
-				{
-					std::lock_guard lck(m_mutex);
-					auto node = m_head;
-					while (node) {
-						node->counter = 1;
-						node = node->next;
-					}
+				auto node = m_head;
+				while (node) {
+					node->counter = 1;
+					node = node->next;
 				}
 				return m_current_counter.fetch_add(1, std::memory_order::seq_cst);
 			}
@@ -368,8 +366,9 @@ namespace asyncpp {
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::append(FN&& fncb) {
 		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
+		std::lock_guard lck{m_mutex};
 		new_node->counter = get_next_counter();
-		if (std::lock_guard lck{m_mutex}; m_head) {
+		if (m_head) {
 			new_node->previous = m_tail;
 			m_tail->next = new_node;
 			m_tail = new_node.get();
@@ -384,8 +383,9 @@ namespace asyncpp {
 	template<typename FN>
 	inline typename signal<void(TParams...), TTraits>::handle signal<void(TParams...), TTraits>::prepend(FN&& fncb) {
 		ref<node> new_node(new node_impl<std::decay_t<FN>>(std::forward<decltype(fncb)>(fncb)));
+		std::lock_guard lck{m_mutex};
 		new_node->counter = get_next_counter();
-		if (std::lock_guard lck{m_mutex}; m_head) {
+		if (m_head) {
 			new_node->next = m_head;
 			m_head->previous = new_node.get();
 			m_head = new_node;
-- 
2.43.0


From c9ae5c13bab46d11941d11bc9f94b16fb5dcb72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 62/67] fix: threadsafe_queue destroyed replaced elements with
 the mutex held

---
 include/asyncpp/threadsafe_queue.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index f35fd01..46ad04b 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -38,16 +38,22 @@ namespace asyncpp {
 		}
 		threadsafe_queue& operator=(const threadsafe_queue& other) {
 			if (&other != this) {
+				// NOTE: The old elements are destroyed without the lock, because their destructor might use the queue
+				std::queue<T, Container> elements{};
 				std::scoped_lock lck{other.m_mutex, m_mutex};
-				m_queue = other.m_queue;
+				elements = other.m_queue;
+				std::swap(m_queue, elements);
 			}
 			return *this;
 		}
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 		threadsafe_queue& operator=(threadsafe_queue&& other) {
 			if (&other != this) {
+				// NOTE: The old elements are destroyed without the lock, because their destructor might use the queue
+				std::queue<T, Container> elements{};
 				std::scoped_lock lck{other.m_mutex, m_mutex};
-				m_queue = std::move(other.m_queue);
+				elements = std::move(other.m_queue);
+				std::swap(m_queue, elements);
 			}
 			return *this;
 		}
-- 
2.43.0


From e59af9a1f634c3be7c2852b1ee0284a61f0b169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 63/67] fix: fire_and_forget_task used itself after being
 destroyed by its own coroutine

---
 include/asyncpp/fire_and_forget.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index 9984ea7..cd9dd0f 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -97,9 +97,10 @@ namespace asyncpp {
 
 			fire_and_forget_task_impl& operator=(const fire_and_forget_task_impl& other) {
 				if (&other != this) {
-					if (m_coro) m_coro.promise().unref();
-					m_coro = other.m_coro;
+					// Dropping the old coroutine might destroy this object
+					auto old = std::exchange(m_coro, other.m_coro);
 					if (m_coro) m_coro.promise().ref();
+					if (old) old.promise().unref();
 				}
 				return *this;
 			}
@@ -112,11 +113,11 @@ namespace asyncpp {
 			void start() noexcept
 				requires(!Eager)
 			{
-				if (m_coro) {
+				// The coroutine might destroy this object
+				if (auto coro = std::exchange(m_coro, {}); coro) {
 					// Make sure it is only started once, even if there are other copies
-					if (m_coro.promise().mark_started()) m_coro.resume();
-					m_coro.promise().unref();
-					m_coro = nullptr;
+					if (coro.promise().mark_started()) coro.resume();
+					coro.promise().unref();
 				}
 			}
 
-- 
2.43.0


From 6bc287acb769e277dae7891e99252a2b84e9b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 64/67] fix: fiber assignment used the fiber after the old one
 destroyed it

---
 include/asyncpp/fiber.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 50ec2f6..2cb0b69 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -975,8 +975,9 @@ namespace asyncpp {
 		/// \brief Move constructor. The moved from handle will be empty.
 		fiber& operator=(fiber&& other) noexcept {
 			if (&other != this) {
-				if (m_handle) m_handle.destroy();
-				m_handle = std::exchange(other.m_handle, nullptr);
+				// Destroying the old fiber might destroy this object
+				auto old = std::exchange(m_handle, std::exchange(other.m_handle, nullptr));
+				if (old) old.destroy();
 			}
 			return *this;
 		}
@@ -1056,8 +1057,9 @@ namespace asyncpp {
 		/// \brief Move constructor. The moved from handle will be empty.
 		fiber& operator=(fiber&& other) noexcept {
 			if (&other != this) {
+				// Destroying the old fiber might destroy this object and needs the old result to stay valid
+				auto old = std::exchange(m_result, std::move(other.m_result));
 				m_base = std::move(other.m_base);
-				m_result = std::move(other.m_result);
 			}
 			return *this;
 		}
-- 
2.43.0


From 367823190c32a6ad0dd89b22f71e7354d592f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 65/67] fix: promise_all without arguments was never fulfilled

---
 include/asyncpp/promise.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 8fa9655..167127d 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -533,6 +533,8 @@ namespace asyncpp {
 			promise<void> result;
 		};
 		auto shared = std::make_shared<state>();
+		// Nothing to wait for
+		if constexpr (sizeof...(args) == 0) shared->result.fulfill();
 		(args.on_settle([shared]() mutable {
 			auto curid = shared->count.fetch_add(1);
 			if (curid + 1 == sizeof...(args)) { shared->result.fulfill(); }
-- 
2.43.0


From 7aa78d71ffb409e1f372537955bb754643b01369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 66/67] fix: signal kept removed subscribers alive while a
 handle to an earlier one existed

Removed nodes kept their next pointer for running emissions, so a handle to a
removed subscriber kept every subscriber behind it alive, and all that followed
those in turn. Running emissions are now moved along instead.
---
 include/asyncpp/signal.h | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 3856361..1c80f49 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -165,6 +165,28 @@ namespace asyncpp {
 		mutable node* m_tail{};
 		std::atomic<size_t> m_current_counter{1};
 
+		// Position of a running emission, moved along if the next node gets removed
+		struct emission {
+			const signal& parent;
+			ref<node> next{};
+			emission* link{};
+
+			explicit emission(const signal& sig) noexcept : parent{sig} {
+				std::lock_guard lck{parent.m_mutex};
+				link = std::exchange(parent.m_emissions, this);
+			}
+			emission(const emission&) = delete;
+			emission& operator=(const emission&) = delete;
+			~emission() noexcept {
+				std::lock_guard lck{parent.m_mutex};
+				auto pos = &parent.m_emissions;
+				while (*pos != this)
+					pos = &(*pos)->link;
+				*pos = link;
+			}
+		};
+		mutable emission* m_emissions{};
+
 		// NOTE: Requires m_mutex, because a concurrent move restarts the counter of the source
 		size_t get_next_counter() {
 			const auto result = m_current_counter.fetch_add(1, std::memory_order::seq_cst);
@@ -209,13 +231,18 @@ namespace asyncpp {
 
 		void free_node(ref<node>& node) const noexcept {
 			node->counter = detail::signal_removed_counter;
-			// Removed nodes keep their next pointer for running emissions, make sure we only unlink them once.
+			// Make sure we only unlink it once.
 			if (m_head != node && node->previous == nullptr) return;
 			if (node->next) { node->next->previous = node->previous; }
 			if (node->previous) { node->previous->next = node->next; }
 			if (m_head == node) m_head = node->next;
 			if (m_tail == node.get()) m_tail = node->previous;
 			node->previous = nullptr;
+			for (auto pos = m_emissions; pos != nullptr; pos = pos->link) {
+				if (pos->next == node) pos->next = node->next;
+			}
+			// A handle might still hold the removed node, it must not keep the ones behind it alive.
+			node->next = nullptr;
 		}
 	};
 
@@ -417,10 +444,12 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	inline size_t signal<void(TParams...), TTraits>::operator()(const TParams&... params) const {
 		ref<node> node{};
+		emission pos{*this};
 
 		{
 			std::lock_guard lck(m_mutex);
 			node = m_head;
+			if (node) pos.next = node->next;
 		}
 
 		size_t ninvoked = 0;
@@ -438,7 +467,8 @@ namespace asyncpp {
 			{
 				std::lock_guard lck(m_mutex);
 				if (node->counter == detail::signal_removed_counter) { free_node(node); }
-				next = node->next;
+				next = std::move(pos.next);
+				if (next) pos.next = next->next;
 			}
 			node = std::move(next);
 		} while (node);
-- 
2.43.0


From c5e3d0d85eea49d059b5d0497edabfb931cad551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:39 +0000
Subject: [PATCH 67/67] fix: queue with a capacity of zero never handed over a
 value

---
 include/asyncpp/queue.h | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 97fdc26..d9d06c4 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -229,8 +229,8 @@ namespace asyncpp {
 	template<typename T, typename TContainer>
 	inline bool queue<T, TContainer>::try_push(T&& value) {
 		std::unique_lock lck{m_mtx};
-		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
+		// Early exit if we are oversized (with a capacity of zero a waiting task still takes the value)
+		if (m_queue.size() >= m_max_size && m_pop_list == nullptr) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			// There should never be a task waiting in pop with a non empty queue
@@ -251,8 +251,8 @@ namespace asyncpp {
 	template<typename... Args>
 	inline bool queue<T, TContainer>::try_emplace(Args&&... args) {
 		std::unique_lock lck{m_mtx};
-		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
+		// Early exit if we are oversized (with a capacity of zero a waiting task still takes the value)
+		if (m_queue.size() >= m_max_size && m_pop_list == nullptr) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			// There should never be a task waiting in pop with a non empty queue
@@ -273,7 +273,17 @@ namespace asyncpp {
 	inline std::optional<T> queue<T, TContainer>::try_pop() {
 		std::unique_lock lck{m_mtx};
 		// Early out if the queue is empty
-		if (m_queue.empty()) return std::nullopt;
+		if (m_queue.empty()) {
+			auto awaiter = m_push_list;
+			if (awaiter == nullptr) return std::nullopt;
+			// Without any capacity the values are taken directly from the tasks waiting in push
+			assert(m_max_size == 0);
+			std::optional<T> res{std::move(awaiter->m_value)};
+			m_push_list = awaiter->m_next;
+			lck.unlock();
+			awaiter->resume();
+			return res;
+		}
 		// Pop the first value
 		std::optional<T> res{std::move(m_queue.front())};
 		m_queue.pop();
@@ -334,6 +344,15 @@ namespace asyncpp {
 	inline bool queue<T, TContainer>::pop_awaiter::await_ready() {
 		std::unique_lock lck{m_parent->m_mtx};
 		if (m_parent->m_queue.empty()) {
+			if (auto awaiter = m_parent->m_push_list; awaiter != nullptr) {
+				// Without any capacity the values are taken directly from the tasks waiting in push
+				assert(m_parent->m_max_size == 0);
+				m_result.emplace(std::move(awaiter->m_value));
+				m_parent->m_push_list = awaiter->m_next;
+				lck.unlock();
+				awaiter->resume();
+				return true;
+			}
 			lck.release(); // We unlock inside suspend
 			return false;
 		}
-- 
2.43.0

