// C27: fibers run like coroutines
#include "hd.h"
#include <asyncpp/defer.h>
#include <asyncpp/event.h>
#include <asyncpp/fiber.h>
#include <asyncpp/launch.h>
#include <asyncpp/mutex.h>
#include <asyncpp/task.h>
#include <optional>
#include <stdexcept>
using namespace h;
namespace {
	using asyncpp::dispatcher;
	using asyncpp::fiber;
	using asyncpp::task;
	using hdl = std::coroutine_handle<>;
	struct plan { // the program of a node, the same wherever and whenever it is executed
		u64 s;
		u64 operator()(u64 n) {
			s = hmix(s, 0x51ed);
			return s % n;
		}
		plan child() {
			s = hmix(s, 0xc417d);
			return {hmix(s, 1)};
		}
	};
	struct world {
		std::vector<std::unique_ptr<pump>> pumps;
		std::vector<hdl> pending; // without pumps
		asyncpp::mutex mtx;
		long guarded = 0, guarded_want = 0;
		mon<int> started, ended, ops, suspended, inlined, fibers, nested, excs, roots, want_roots, deferred, moved;
		dispatcher* any(plan& p) { return pumps[p(pumps.size())].get(); }
		bool mt() const { return !pumps.empty(); }
		void submit(u64 where, hdl h) {
			if (mt()) pumps[where % pumps.size()]->push([h]() { h.resume(); });
			else {
				vrt_ignore i;
				pending.push_back(h);
			}
		}
		void run_pending() {
			while (!pending.empty()) {
				size_t k = rnd(pending.size());
				hdl h = pending[k];
				pending.erase(pending.begin() + k);
				h.resume();
			}
		}
	};
	struct at_ready {};
	struct at_suspend {};
	struct at_resume {};
	// ---------------------------------------------------------------- the awaited operation
	enum { READY, FALSE_, VOID_, TRUE_, HANDLE, HANDLE_OTHER, INLINE, THROW_READY, THROW_SUSPEND, NKINDS };
	struct op_base {
		world* w;
		u64 where;
		long val;
		bool boom;
		u64 canary = 0x1234567887654321;
		int readies = 0, suspends = 0, resumes = 0, completed = 0;
		op_base(world* w, plan& p, bool boom) : w(w), where(p(8)), val((long)p(1000)), boom(boom) {}
		op_base(const op_base&) = delete;
		void ready() {
			CHECK(canary == 0x1234567887654321, "awaiter damaged");
			CHECK(!readies++ && !suspends && !resumes, "await_ready called out of order");
		}
		void suspend() {
			CHECK(canary == 0x1234567887654321, "awaiter damaged");
			CHECK(readies == 1 && !suspends++ && !resumes, "await_suspend called out of order");
		}
		long resume(bool suspended) {
			CHECK(canary == 0x1234567887654321, "awaiter damaged");
			CHECK(readies == 1 && suspends == (suspended ? 1 : 0) && !resumes++, "await_resume called out of order");
			w->ops.add(1);
			if (boom) throw at_resume{};
			return val;
		}
		~op_base() { canary = 0; }
	};
	// hands the handle over: once submit() was called everything may happen elsewhere
	struct relay { // wraps the completion so that an early resumption is seen
		static hdl make(op_base* o, hdl h) {
			struct co_ {
				struct promise_type {
					co_ get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
					std::suspend_always initial_suspend() noexcept { return {}; }
					std::suspend_never final_suspend() noexcept { return {}; }
					void return_void() {}
					void unhandled_exception() { vrt_fail("oracle", "exception escaped from resume()"); }
				};
				std::coroutine_handle<promise_type> h;
			};
			return [](op_base* o, hdl h) -> co_ {
				o->completed++;
				h.resume();
				co_return;
			}(o, h)
									   .h;
		}
	};
	template<int K>
	struct op : op_base {
		op(world* w, plan& p, bool boom) : op_base(w, p, boom) {}
		bool await_ready() {
			ready();
			if constexpr (K == THROW_READY) throw at_ready{};
			return K == READY;
		}
		auto await_suspend(hdl h) {
			suspend();
			world* ww = w;
			CHECK(!h.done(), "suspended fiber claims to be done");
			if constexpr (K == FALSE_ || K == TRUE_) {
				if (K == FALSE_) return false;
				ww->suspended.add(1);
				ww->submit(where, relay::make(this, h));
				return true;
			} else if constexpr (K == VOID_) {
				ww->suspended.add(1);
				ww->submit(where, relay::make(this, h));
			} else if constexpr (K == HANDLE) { // complete by transfer
				completed++;
				return h;
			} else if constexpr (K == HANDLE_OTHER) {
				ww->suspended.add(1);
				hdl r = relay::make(this, h);
				u64 where = this->where;
				return [](world* w, u64 where, hdl r) -> starter {
					w->submit(where, r);
					co_return;
				}(ww, where, r)
													   .h;
			} else if constexpr (K == INLINE) { // completes before await_suspend returns
				completed++;
				ww->inlined.add(1);
				h.resume();
			} else if constexpr (K == THROW_SUSPEND)
				throw at_suspend{};
		}
		long await_resume() {
			if constexpr (K == TRUE_ || K == VOID_ || K == HANDLE || K == HANDLE_OTHER || K == INLINE) CHECK(completed == 1, "continued before the awaited operation was completed");
			return resume(K != READY);
		}
		struct starter {
			struct promise_type {
				starter get_return_object() { return {hdl(std::coroutine_handle<promise_type>::from_promise(*this))}; }
				std::suspend_always initial_suspend() noexcept { return {}; }
				std::suspend_never final_suspend() noexcept { return {}; }
				void return_void() {}
				void unhandled_exception() { vrt_fail("oracle", "exception escaped"); }
			};
			hdl h;
		};
	};
	// what an operation delivers: value, or 10^6 + kind of exception
	long expect_op(world* w, plan p, int k, bool boom) {
		op_base o(w, p, boom);
		if (k == THROW_READY) return 1000001;
		if (k == THROW_SUSPEND) return 1000002;
		return boom ? 1000003 : o.val;
	}
	template<int K>
	__attribute__((noinline)) long fib_op(world* w, plan p, bool boom) {
		char pad[64];
		memset(pad, (int)p.s, sizeof pad);
		char c = pad[0];
		long r;
		try {
			try {
				r = fib_await(op<K>(w, p, boom));
			} catch (const at_resume&) {
				w->excs.add(1);
				CHECK(K != THROW_READY && K != THROW_SUSPEND && boom, "wrong exception");
				throw 3;
			} catch (const at_suspend&) {
				CHECK(K == THROW_SUSPEND, "wrong exception");
				throw 2;
			} catch (const at_ready&) {
				CHECK(K == THROW_READY, "wrong exception");
				throw 1;
			}
		} catch (int v) { r = 1000000 + v; }
		for (char x : pad) CHECK(x == c, "local variables of a fiber damaged");
		return r;
	}
	long fib_any_op(world* w, plan p, int k, bool boom) {
		switch (k) {
		case READY: return fib_op<READY>(w, p, boom);
		case FALSE_: return fib_op<FALSE_>(w, p, boom);
		case VOID_: return fib_op<VOID_>(w, p, boom);
		case TRUE_: return fib_op<TRUE_>(w, p, boom);
		case HANDLE: return fib_op<HANDLE>(w, p, boom);
		case HANDLE_OTHER: return fib_op<HANDLE_OTHER>(w, p, boom);
		case INLINE: return fib_op<INLINE>(w, p, boom);
		case THROW_READY: return fib_op<THROW_READY>(w, p, boom);
		default: return fib_op<THROW_SUSPEND>(w, p, boom);
		}
	}
	// ---------------------------------------------------------------- nodes
	const int CO_KINDS = TRUE_ + 1; // operations used by coroutine nodes
	long expect_node(world* w, plan p, int depth, bool in_fiber);
	long fiber_node(world* w, plan p, int depth);
	task<long> coro_node(world* w, plan p, int depth);
	struct body { // the callable of a fiber
		world* w;
		plan p;
		int depth;
		tracked t{7};
		std::shared_ptr<int> runs;
		long operator()() const {
			CHECK(t.get() == 7, "captured object");
			CHECK(runs && ++*runs == 1, "callable of a fiber called %d times", *runs);
			w->started.add(1);
			long r = fiber_node(w, p, depth);
			CHECK(t.get() == 7, "captured object");
			w->ended.add(1);
			return r;
		}
	};
	struct vbody : body {
		long* out;
		void operator()() const { *out = body::operator()(); }
	};
	body make(world* w, plan p, int depth) {
		w->fibers.add(1);
		return {w, p, depth, tracked(7), std::make_shared<int>(0)};
	}
	__attribute__((noinline)) long deeper(world* w, plan p, int depth, int n) {
		tracked local(n);
		long r = n ? deeper(w, p, depth, n - 1) : fiber_node(w, p, depth);
		CHECK(local.get() == n, "local object of a fiber");
		return r + 1;
	}
	size_t stack_of(plan& p) { return p(3) == 0 ? 262144 : (48 << 10) + p(20000); }
	// one step of a node that a fiber executes. The same draws are made by expect_node.
	long fiber_step(world* w, plan& p, int depth) {
		switch (p(depth > 0 ? 12 : 4)) {
		case 0:
		case 1:
		case 2: {
			int k = (int)p(NKINDS);
			bool boom = p(4) == 0;
			return fib_any_op(w, p.child(), k, boom);
		}
		case 3: {
			u64 how = p(3), who = p(8);
			if (how == 0) {
				auto l = fib_await w->mtx.lock_scoped();
				w->guarded++;
				w->guarded_want++;
				CHECK(w->guarded == w->guarded_want, "guarded data");
			} else if (!w->mt()) {
			} else if (how == 1) {
				dispatcher* d = w->pumps[who % w->pumps.size()].get();
				fib_await asyncpp::defer(d);
				CHECK(dispatcher::current() == d, "fiber is not on the dispatcher it deferred to");
				w->deferred.add(1);
			} else {
				asyncpp::single_consumer_event e;
				w->pumps[who % w->pumps.size()]->push([&e]() { e.set(); });
				fib_await e.wait(w->pumps[0].get());
			}
			return 5;
		}
		case 4:
		case 5: { // nested fiber
			u64 how = p(7);
			size_t st = stack_of(p);
			plan c = p.child();
			w->nested.add(1);
			switch (how) {
			case 0: {
				fiber<long> f(make(w, c, depth - 1), st);
				return fib_await f.await();
			}
			case 1: return fib_await fiber<long>(make(w, c, depth - 1), st).await();
			case 2: { // moved around, awaited again when done
				fiber<long> a(make(w, c, depth - 1), st), b(std::move(a)), d;
				d = std::move(b);
				long r = fib_await d.await();
				CHECK((fib_await d.await()) == r, "a fiber that has ended delivers another value");
				fiber<long> e(std::move(d));
				CHECK((fib_await e.await()) == r, "a fiber that has ended delivers another value");
				CHECK((fib_await std::move(e).await()) == r, "a fiber that has ended delivers another value");
				return r;
			}
			case 3: {
				long out = -1;
				vbody v{make(w, c, depth - 1), &out};
				fiber<void> f(std::move(v), st);
				fib_await f.await();
				return out;
			}
			case 4: { // the callable is an lvalue that is gone when the fiber starts
				long out = -1;
				std::optional<vbody> v(vbody{make(w, c, depth - 1), &out});
				fiber<void> f(*v, st);
				*v->runs = 100;
				v->runs = nullptr;
				f = fiber<void>(fiber<void>());
				v.emplace(vbody{make(w, c, depth - 1), &out});
				fiber<void> g(*v, st);
				v.reset();
				fib_await g.await();
				return out;
			}
			case 5: { // through two more levels of fibers
				auto inner = [b = make(w, c, depth - 1)]() { return fib_await fiber<long>([&]() { return fib_await fiber<long>(b).await(); }).await(); };
				return fib_await fiber<long>(inner, 1 << 16).await();
			}
			default: { // never started
				fiber<long> f(make(w, c, depth - 1), st);
				fiber<void> g(vbody{make(w, c, depth - 1), nullptr}, st);
				return 6;
			}
			}
		}
		case 6:
		case 7: { // coroutine
			plan c = p.child();
			task<long> t = coro_node(w, c, depth - 1);
			return fib_await std::move(t).operator co_await();
		}
		case 8:
		case 9: {
			int n = (int)p(6);
			return deeper(w, p.child(), depth - 1, n);
		}
		case 10: return fiber_node(w, p.child(), depth - 1);
		default: { // exceptions that pass through frames which awaited
			plan c = p.child();
			try {
				long r = fiber_node(w, c, depth - 1);
				throw r;
			} catch (long r) { return r + 2; }
		}
		}
	}
	long expect_step(world* w, plan& p, int depth) {
		switch (p(depth > 0 ? 12 : 4)) {
		case 0:
		case 1:
		case 2: {
			int k = (int)p(NKINDS);
			bool boom = p(4) == 0;
			return expect_op(w, p.child(), k, boom);
		}
		case 3: p(3), p(8); return 5;
		case 4:
		case 5: {
			u64 how = p(7);
			stack_of(p);
			plan c = p.child();
			return how >= 6 ? 6 : expect_node(w, c, depth - 1, true);
		}
		case 6:
		case 7: return expect_node(w, p.child(), depth - 1, false);
		case 8:
		case 9: {
			int n = (int)p(6);
			return expect_node(w, p.child(), depth - 1, true) + n + 1;
		}
		case 10: return expect_node(w, p.child(), depth - 1, true);
		default: return expect_node(w, p.child(), depth - 1, true) + 2;
		}
	}
	long fiber_node(world* w, plan p, int depth) {
		long acc = 0;
		for (int n = (int)p(4); n > 0; n--) acc = (long)(hmix(acc, fiber_step(w, p, depth)) >> 8);
		return acc;
	}
	task<long> coro_node(world* w, plan p, int depth) {
		tracked local(3);
		long acc = 0;
		for (int n = (int)p(4); n > 0; n--) {
			long r;
			switch (p(depth > 0 ? 4 : 2)) {
			case 0:
			case 1: {
				u64 k = p(2);
				bool boom = p(4) == 0;
				plan c = p.child();
				try {
					if (k) r = co_await op<TRUE_>(w, c, boom);
					else r = co_await op<READY>(w, c, boom);
				} catch (const at_resume&) { r = 1000003; }
				break;
			}
			case 2: {
				u64 how = p(3);
				plan c = p.child();
				if (how == 0) {
					fiber<long> f(make(w, c, depth - 1));
					r = co_await f;
				} else if (how == 1) {
					fiber<long> f(make(w, c, depth - 1));
					r = co_await std::move(f);
				} else {
					long out = -1;
					vbody v{make(w, c, depth - 1), &out};
					fiber<void> f(v);
					co_await f;
					r = out;
				}
				break;
			}
			default: r = co_await coro_node(w, p.child(), depth - 1); break;
			}
			acc = (long)(hmix(acc, r) >> 8);
		}
		CHECK(local.get() == 3, "local object of a coroutine");
		co_return acc;
	}
	long expect_node(world* w, plan p, int depth, bool in_fiber) {
		long acc = 0;
		for (int n = (int)p(4); n > 0; n--) {
			long r;
			if (in_fiber) r = expect_step(w, p, depth);
			else
				switch (p(depth > 0 ? 4 : 2)) {
				case 0:
				case 1: {
					u64 k = p(2);
					bool boom = p(4) == 0;
					r = expect_op(w, p.child(), k ? TRUE_ : READY, boom);
					break;
				}
				case 2: p(3); r = expect_node(w, p.child(), depth - 1, true); break;
				default: r = expect_node(w, p.child(), depth - 1, false); break;
				}
			acc = (long)(hmix(acc, r) >> 8);
		}
		return acc;
	}
	co root(world* w, plan p, int depth, int how) {
		long want;
		{
			vrt_ignore i;
			want = expect_node(w, p, depth, true);
		}
		long r;
		int before = w->started.get();
		if (how == 0) {
			fiber<long> f(make(w, p, depth));
			CHECK(w->mt() || w->started.get() == before, "a fiber started before it was awaited");
			r = co_await f;
			CHECK(r == want, "fiber returned another value");
			if (coin()) r = co_await f;
		} else if (how == 1) {
			fiber<long> f(make(w, p, depth));
			r = co_await std::move(f);
		} else {
			long out = -1;
			vbody v{make(w, p, depth), &out};
			fiber<void> f(v, 1 << 17);
			co_await f;
			r = out;
		}
		CHECK(r == want, "fiber returned another value");
		w->roots.add(1);
	}
	void finish(world& w, int roots) {
		CHECK(w.roots.get() == roots, "%d of %d awaiting coroutines were resumed", w.roots.get(), roots);
		CHECK(w.started.get() == w.ended.get(), "a fiber did not end");
		CHECK(w.guarded == w.guarded_want, "guarded data");
		vrt_count("operations", w.ops.get());
		vrt_count("suspensions", w.suspended.get());
		vrt_count("fibers", w.started.get());
		vrt_count("nested", w.nested.get());
		vrt_count("exceptions", w.excs.get());
		vrt_count("deferred", w.deferred.get());
		vrt_sig(w.ops.get() * 1000003ull + w.started.get() * 1009 + w.suspended.get());
		if (w.suspended.get() && w.started.get() > 1) vrt_nontrivial();
	}
	void quiet() {
		check_quiescent();
		CHECK(vrt_live_maps() == 0, "%zu stacks of fibers are still mapped", vrt_live_maps());
		CHECK(vrt_live_fibers() == 0, "%zu fibers were not reported destroyed to TSan", vrt_live_fibers());
	}
	void tree_st() {
		reset_globals();
		{
			world w;
			int n = 1 + (int)rnd(3);
			for (int i = 0; i < n; i++) {
				u64 s = vrt_rand64();
				vrt_sig(s);
				root(&w, {s}, (int)rnd(4), (int)rnd(3));
				if (coin()) w.run_pending();
			}
			w.run_pending();
			finish(w, n);
		}
		quiet();
	}
	void with_threads(int maxdepth, int maxroots) {
		reset_globals();
		{
			world w;
			int np = 1 + (int)rnd(2);
			for (int i = 0; i < np; i++) w.pumps.push_back(std::make_unique<pump>(1 + (int)rnd(2)));
			int n = 1 + (int)rnd(maxroots);
			for (int i = 0; i < n; i++) {
				plan p{vrt_rand64()};
				int depth = (int)rnd(maxdepth + 1), how = (int)rnd(3);
				if (coin()) root(&w, p, depth, how);
				else w.pumps[rnd(np)]->push([&w, p, depth, how]() { root(&w, p, depth, how); });
			}
			for (int i = 0; w.roots.get() < n; i++) {
				CHECK(i < 3000, "fibers do not finish");
				std::this_thread::sleep_for(std::chrono::milliseconds(1));
			}
			for (auto& p : w.pumps) p->stop();
			finish(w, n);
		}
		quiet();
	}
	void tree() { with_threads(2, 2); }
	void shallow() { with_threads(0, 3); }
	// one fiber, one suspension after the other, resumed and released elsewhere at once
	co release_elsewhere(world* w, int n) {
		{
			fiber<long> f([w, n, t = tracked(5)]() {
				long r = 0;
				for (int i = 0; i < n; i++) {
					plan p{(u64)i};
					if (i & 1) r += fib_await(op<VOID_>(w, p, false));
					else r += fib_await(op<TRUE_>(w, p, false));
				}
				CHECK(t.get() == 5, "captured object");
				return r;
			});
			co_await f;
		}
		w->roots.add(1);
	}
	void handoff() {
		reset_globals();
		{
			world w;
			int np = 1 + (int)rnd(2);
			for (int i = 0; i < np; i++) w.pumps.push_back(std::make_unique<pump>(1));
			int n = 1 + (int)rnd(3);
			for (int i = 0; i < n; i++) {
				int k = 1 + (int)rnd(2);
				release_elsewhere(&w, k);
			}
			for (int i = 0; w.roots.get() < n; i++) {
				CHECK(i < 3000, "fibers do not finish");
				std::this_thread::sleep_for(std::chrono::milliseconds(1));
			}
			for (auto& p : w.pumps) p->stop();
			vrt_count("handoffs", w.suspended.get());
			vrt_nontrivial();
		}
		quiet();
	}
	// ---------------------------------------------------------------- abandoned fibers
	struct held { // coroutine owned by the scenario
		struct promise_type {
			held get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_never initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { vrt_fail("oracle", "unexpected exception escaped into the awaiting coroutine"); }
		};
		std::coroutine_handle<promise_type> h;
	};
	struct scene {
		hdl last{};
		int waits = 0, entered = 0, unwound = 0, after = 0, resumed = 0, swallowed = 0;
	};
	struct forever {
		scene* s;
		bool await_ready() { return false; }
		bool await_suspend(hdl h) {
			s->last = h;
			s->waits++;
			return true;
		}
		void await_resume() {}
	};
	struct on_unwind {
		scene* s;
		tracked t{1};
		explicit on_unwind(scene* s) : s(s) { s->entered++; }
		on_unwind(const on_unwind&) = delete;
		~on_unwind() {
			t.get();
			s->unwound++;
		}
	};
	__attribute__((noinline)) void stuck(scene* s, int how, int nest) {
		on_unwind a(s);
		if (nest > 0 && how != 9) {
			stuck(s, how, nest - 1);
			return;
		}
		switch (how) {
		case 0:
			fib_await forever{s};
			s->after++;
			break;
		case 1: // swallows what is thrown and waits again
			for (int i = 0; i < 3; i++) {
				try {
					on_unwind b(s);
					fib_await forever{s};
					s->after++;
				} catch (...) { s->swallowed++; }
			}
			break;
		case 2: // swallows and returns
			try {
				on_unwind b(s);
				fib_await forever{s};
				s->after++;
			} catch (...) { s->swallowed++; }
			break;
		case 3: { // waits for a nested fiber that waits
			fiber<void> in([s, nest, t = tracked(4)]() {
				on_unwind c(s);
				stuck(s, 0, nest);
			});
			fib_await in.await();
			s->after++;
			break;
		}
		case 4: { // another fiber that waits is released while this one is unwound
			fiber<void> in([s]() { stuck(s, 2, 0); });
			auto c = [](fiber<void>* f, scene* s) -> held {
				co_await *f;
				s->after++;
			}(&in, s);
			struct rel {
				held c;
				~rel() { c.h.destroy(); }
			} r{c};
			fib_await forever{s};
			s->after++;
			break;
		}
		case 5: { // a coroutine in between
			auto t = [](scene* s) -> task<> {
				on_unwind c(s);
				fiber<int> f([s]() {
					stuck(s, 0, 1);
					return 1;
				});
				co_await f;
				s->after++;
			}(s);
			auto c = [](task<>* t, scene* s) -> held {
				on_unwind d(s);
				co_await *t;
				s->after++;
			}(&t, s);
			struct rel {
				held c;
				~rel() { c.h.destroy(); }
			} r{c};
			fib_await forever{s};
			s->after++;
			break;
		}
		}
	}
	template<class F>
	held waits_for(F* f, scene* s) {
		on_unwind a(s);
		co_await *f;
		s->resumed++;
	}
	template<class F>
	held owns(F f, scene* s) {
		on_unwind a(s);
		co_await f;
		s->resumed++;
	}
	template<class F>
	void drop(F f, scene* s, int how) {
		switch (rnd(how == 0 ? 6 : 5)) {
		case 0: { // never started
			F g(std::move(f));
			if (coin()) f = std::move(g);
			return;
		}
		case 1: { // owner and its awaiter go away together
			auto c = owns(std::move(f), s);
			CHECK(!c.h.done() || !s->waits, "awaiting coroutine was resumed");
			c.h.destroy();
			return;
		}
		case 2: { // fiber first
			std::optional<F> g(std::move(f));
			auto c = waits_for(&*g, s);
			bool done = c.h.done();
			g.reset();
			CHECK(c.h.done() == done, "awaiting coroutine was resumed by the destruction of the fiber");
			c.h.destroy();
			return;
		}
		case 3: { // awaiter first
			auto c = waits_for(&f, s);
			c.h.destroy();
			return;
		}
		case 4: { // replaced by another fiber
			auto c = waits_for(&f, s);
			bool done = c.h.done();
			if (coin()) f = F();
			else {
				F g([s]() -> decltype(auto) {
					stuck(s, 0, 0);
					if constexpr (!std::is_same_v<F, fiber<void>>) return 3;
				});
				f = std::move(g);
			}
			CHECK(c.h.done() == done, "awaiting coroutine was resumed by the destruction of the fiber");
			c.h.destroy();
			return;
		}
		case 5: { // moved while it is suspended, then continued
			auto c = waits_for(&f, s);
			F g(std::move(f));
			CHECK(s->waits == 1 && s->after == 0 && !c.h.done(), "fiber did not suspend");
			if (coin()) {
				f = std::move(g);
				s->last.resume();
			} else
				s->last.resume();
			CHECK(s->after == 1 && c.h.done() && s->resumed == 1, "moved fiber did not go on");
			s->after = s->resumed = 0;
			c.h.destroy();
			return;
		}
		}
	}
	template<class F>
	struct keeper { // owns a fiber that keeps it alive
		tracked t{9};
		int* gone;
		std::optional<F> f;
		explicit keeper(int* g) : gone(g) {}
		~keeper() { ++*gone; }
	};
	// the fiber, or its stack, owns the object that holds it: replacing or dropping it destroys that object
	template<class F>
	void cycle(scene* s) {
		constexpr bool is_void = std::is_same_v<F, fiber<void>>;
		int gone = 0;
		bool on_stack = coin(), start = coin(3) || on_stack, fin = start && !on_stack && coin(4);
		{
			auto k = std::make_shared<keeper<F>>(&gone);
			keeper<F>* raw = k.get();
			struct mutable_ptr { // the callable of a fiber with a result must be callable as const
				mutable std::shared_ptr<keeper<F>> p;
			};
			k->f.emplace([k = mutable_ptr{k}, s, on_stack, t = tracked(6)]() -> decltype(auto) {
				auto local = on_stack ? std::exchange(k.p, nullptr) : nullptr;
				on_unwind z(s);
				fib_await forever{s};
				s->after++;
				CHECK((local ? local : k.p)->t.get() == 9, "owner of a fiber damaged");
				if constexpr (!is_void) return tracked(8);
			});
			k = nullptr;
			std::optional<held> c;
			if (start) c = waits_for(&*raw->f, s);
			CHECK(gone == 0, "object destroyed although a fiber owns it");
			if (fin) {
				s->last.resume();
				CHECK(s->after == 1 && c->h.done(), "fiber did not go on");
				s->after = s->resumed = 0;
			}
			switch (rnd(3)) {
			case 0: *raw->f = F(); break;
			case 1: {
				F g([s]() -> decltype(auto) {
					stuck(s, 0, 0);
					if constexpr (!is_void) return tracked(3);
				});
				*raw->f = std::move(g);
				break;
			}
			case 2: F g(std::move(*raw->f)); break;
			}
			CHECK(gone == 1, "object owned by a destroyed fiber was destroyed %d times", gone);
			if (c) c->h.destroy();
		}
	}
	void owned() {
		reset_globals();
		{
			scene s;
			bool v = coin();
			if (v) cycle<fiber<void>>(&s);
			else cycle<fiber<tracked>>(&s);
			vrt_sig(s.entered * 4 + s.waits * 2 + v);
			CHECK(s.entered == s.unwound, "%d objects on the stacks of fibers were created but %d destroyed", s.entered, s.unwound);
			CHECK(s.after == 0 && s.resumed == 0, "a destroyed fiber went on");
			vrt_count(s.waits ? "suspended_cycles" : "unstarted_cycles", 1);
		}
		vrt_nontrivial();
		check_quiescent();
	}
	void abandon() {
		reset_globals();
		{
			int rounds = 1 + (int)rnd(3);
			for (int r = 0; r < rounds; r++) {
				scene s;
				int how = (int)rnd(7), nest = (int)rnd(4);
				vrt_sig(how * 10 + nest);
				auto body = [s = &s, how, nest, t = tracked(6)]() {
					on_unwind z(s);
					stuck(s, how, nest);
				};
				auto vbody = [body]() {
					body();
					return tracked(8);
				};
				bool unwinding = coin(3); // all of this during the unwinding of another exception
				auto go = [&]() {
					if (coin()) drop(fiber<void>(body), &s, how);
					else drop(fiber<tracked>(vbody), &s, how);
				};
				if (unwinding) {
					try {
						struct d {
							decltype(go)& g;
							~d() { g(); }
						} x{go};
						throw trivial_error{1};
					} catch (const trivial_error& e) { CHECK(e.v == 1, "exception"); }
				} else
					go();
				CHECK(std::uncaught_exceptions() == 0, "%d exceptions left behind", std::uncaught_exceptions());
				CHECK(s.entered == s.unwound, "%d of %d objects were destroyed when a suspended fiber was destroyed", s.unwound, s.entered);
				CHECK(s.after == 0, "a fiber went on after it was destroyed");
				CHECK(how == 6 || s.resumed == 0, "the awaiter of a destroyed fiber was resumed");
				vrt_count("waits", s.waits);
				vrt_count("swallowed", s.swallowed);
				vrt_count("unwound", s.unwound);
				if (s.waits) vrt_nontrivial();
			}
		}
		quiet();
	}
	// ---------------------------------------------------------------- misuse that has to be reported
	void misuse() {
		reset_globals();
		{
			scene s;
			{
				fiber<long> f([&s, t = tracked(2)]() {
					on_unwind a(&s);
					fib_await forever{&s};
					return 5L;
				});
				long got = 0;
				auto first = [](fiber<long>* f, long* got) -> held { *got = co_await *f; }(&f, &got);
				CHECK(!first.h.done() && s.waits == 1, "fiber did not suspend");
				int refused = 0;
				bool from_fiber = coin();
				auto second = [](fiber<long>* f, int* refused, bool from_fiber) -> held {
					if (from_fiber) {
						co_await fiber<void>([f, refused]() {
							try {
								fib_await f->await();
								vrt_fail("oracle", "second await of a running fiber returned");
							} catch (const std::logic_error&) { ++*refused; }
						});
					} else
						try {
							co_await *f;
							vrt_fail("oracle", "second await of a running fiber returned");
						} catch (const std::logic_error&) { ++*refused; }
				}(&f, &refused, from_fiber);
				CHECK(second.h.done() && refused == 1, "second await of a running fiber was not refused");
				CHECK(!first.h.done() && s.waits == 1, "refused await had an effect on the fiber");
				if (coin()) {
					s.last.resume();
					CHECK(first.h.done() && got == 5, "fiber did not deliver its value");
					auto third = [](fiber<long>* f, long* got) -> held { *got += co_await *f; }(&f, &got);
					CHECK(third.h.done() && got == 10, "fiber that has ended did not deliver its value again");
					third.h.destroy();
				}
				second.h.destroy();
				first.h.destroy();
			}
			int empty = 0;
			auto e = [](int* empty) -> held {
				fiber<int> a;
				fiber<void> b;
				fiber<int> c([]() { return 1; }), d(std::move(c));
				fiber<void> x([]() {}), y(std::move(x));
				try {
					co_await a;
				} catch (const std::logic_error&) { ++*empty; }
				try {
					co_await std::move(a);
				} catch (const std::logic_error&) { ++*empty; }
				try {
					co_await b;
				} catch (const std::logic_error&) { ++*empty; }
				try {
					co_await c;
				} catch (const std::logic_error&) { ++*empty; }
				try {
					co_await x;
				} catch (const std::logic_error&) { ++*empty; }
				CHECK((co_await d) == 1, "moved fiber");
				co_await y;
			}(&empty);
			CHECK(e.h.done() && empty == 5, "awaiting an empty fiber was not refused");
			e.h.destroy();
			CHECK(s.entered == s.unwound, "object of a fiber not destroyed");
			vrt_count("refused", 6);
			vrt_nontrivial();
		}
		quiet();
	}
	// ---------------------------------------------------------------- what an await delivers
	struct counted : tracked {
		mon<int>* copies;
		counted(int v, mon<int>* c) : tracked(v), copies(c) {}
		counted(const counted& o) : tracked(o), copies(o.copies) { copies->add(1); }
		counted(counted&&) = default;
		counted& operator=(const counted&) = delete;
		counted& operator=(counted&&) = delete;
	};
	struct self_test { // tells which fiber the code runs in
		void** me;
		bool await_ready() { return false; }
		bool await_suspend(hdl h) {
			*me = h.address();
			return false;
		}
		void await_resume() {}
	};
	void* which_fiber() {
		void* me = nullptr;
		fib_await self_test{&me};
		return me;
	}
	void results() {
		reset_globals();
		{
			mon<int> copies;
			int v = (int)rnd(1000), waits = (int)rnd(3), again = (int)rnd(3), way = (int)rnd(3);
			vrt_sig(waits * 100 + again * 10 + way);
			scene s;
			auto make = [&]() {
				return fiber<counted>([&s, v, waits, c = &copies]() {
					for (int i = 0; i < waits; i++) fib_await forever{&s};
					return counted(v, c);
				});
			};
			int ended = 0;
			auto user = [](auto make, int v, int again, int way, mon<int>* copies, int* ended) -> held {
				fiber<counted> f = make();
				if (way) { // an lvalue keeps its value
					counted a = co_await f;
					CHECK(a.get() == v, "fiber delivered another value");
					for (int i = 0; i < again; i++) {
						counted b = co_await f;
						CHECK(b.get() == v && a.get() == v, "fiber that has ended delivered another value");
					}
				}
				int before = copies->get();
				if (way != 2) { // an rvalue gives it away
					counted c = co_await std::move(f);
					CHECK(c.get() == v, "fiber delivered another value");
					CHECK(copies->get() == before, "result of an rvalue was copied");
				}
				++*ended;
			}(make, v, again, way, &copies, &ended);
			for (int i = 0; i < waits; i++) {
				CHECK(s.waits == i + 1 && !ended, "fiber did not wait");
				std::exchange(s.last, nullptr).resume();
			}
			CHECK(user.h.done() && ended == 1, "awaiting coroutine was not resumed");
			user.h.destroy();
		}
		{ // coroutines continued by a nested fiber run in the fiber that is active then
			int ran = 0;
			scene s;
			bool suspend = coin(), destroy = coin();
			fiber<void> outer([&]() {
				void* const me = which_fiber();
				fiber<int> inner([&]() {
					CHECK(which_fiber() != me, "nested fiber believes to be the outer one");
					if (suspend) fib_await forever{&s};
					return 4;
				});
				auto c = [](fiber<int>* inner, void* me, int* ran) -> held {
					CHECK(co_await *inner == 4, "fiber delivered another value");
					CHECK(which_fiber() == me, "code in a fiber does not wait as this fiber after a nested one ended");
					++*ran;
				}(&inner, me, &ran);
				CHECK(which_fiber() == me, "fiber does not wait as itself after it started another one");
				if (suspend) {
					if (destroy) {
						inner = fiber<int>();
						CHECK(which_fiber() == me, "fiber does not wait as itself after it destroyed another one");
						ran++;
					} else {
						s.last.resume();
						CHECK(which_fiber() == me, "fiber does not wait as itself after it resumed another one");
					}
				}
				c.h.destroy();
			});
			auto c = [](fiber<void>* f, int* ran) -> held {
				co_await *f;
				++*ran;
			}(&outer, &ran);
			CHECK(c.h.done() && ran == 2, "fiber did not end");
			c.h.destroy();
		}
		vrt_count("delivered", 2);
		vrt_nontrivial();
		quiet();
	}
} // namespace
SCENARIOS({"tree_st", tree_st, VRT_SINGLE}, {"results", results, VRT_SINGLE}, {"abandon", abandon, VRT_SINGLE}, {"misuse", misuse, VRT_SINGLE}, {"owned", owned, VRT_SINGLE}, {"tree", tree, 0}, {"shallow", shallow, 0}, {"handoff", handoff, 0})
