// Large populations and large numbers: the guarantees of every part with hundreds to tens of thousands of waiters,
// handles, children or elements, and with counts and capacities beyond 32 bits. Native, one program per execution.
// Each check compiles its own part (-DONLY=<number of the property>).
#include "scale.h"
#include <atomic>
#include <chrono>
#include <deque>
#include <mutex>
#include <optional>
using namespace h;
#ifdef ONLY
#define PART(x) (ONLY == x)
#else
#define PART(x) 1
#endif
namespace {
	using steady = std::chrono::steady_clock;
	struct gate {
		std::coroutine_handle<> h{};
	};
	struct gate_ref {
		gate* g;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> x) { g->h = x; }
		void await_resume() {}
	};
} // namespace

#if PART(1) // C01
#include <asyncpp/mutex.h>
namespace {
	co lock_one(asyncpp::mutex& m, std::vector<u32>& order, u32 i) {
		co_await m.lock();
		order.push_back(i);
	}
	void crowd_mutex() {
		size_t n = big(70000);
		asyncpp::mutex m;
		std::vector<u32> order;
		CHECK(m.try_lock(), "a fresh mutex is locked");
		size_t next = 0, granted = 0;
		while (granted < n) {
			size_t add = coin() ? n - next : std::min(n - next, (size_t)rnd(300));
			for (size_t k = 0; k < add; k++) lock_one(m, order, (u32)next++);
			CHECK(order.size() == granted, "a waiter got the mutex while it was held");
			size_t rel = coin() ? next - granted : std::min(next - granted, (size_t)rnd(300));
			for (size_t k = 0; k < rel; k++) {
				m.unlock();
				granted++;
				CHECK(order.size() == granted, "unlock with %zu waiters resumed %zu of them", next - granted + 1, order.size() - granted + 1);
				CHECK(order.back() == granted - 1, "waiter %u was served as number %zu", order.back(), granted - 1);
				CHECK(!m.try_lock(), "mutex handed over and free");
			}
		}
		m.unlock();
		CHECK(m.try_lock(), "mutex not free after the last unlock");
		m.unlock();
	}
	// one mutex through a long life, a few waiters at a time
	struct holder {
		std::optional<asyncpp::mutex_lock> lk;
		u32 id = 0;
	};
	co lock_scoped(asyncpp::mutex& m, holder& h, u32 id) {
		auto l = co_await m.lock_scoped();
		CHECK(!h.lk, "two holders");
		h.id = id;
		h.lk.emplace(std::move(l));
	}
	void life_mutex() {
		size_t n = big(70000);
		asyncpp::mutex m;
		holder h;
		std::deque<u32> waiting;
		u32 next = 1;
		for (size_t k = 0; k < n; k++) {
			bool held = h.lk.has_value();
			switch (rnd(4)) {
			case 0: {
				bool r = m.try_lock();
				CHECK(r == !held, "operation %zu: try_lock() is %d on a mutex that is %s", k, r, held ? "held" : "free");
				if (r) m.unlock();
				break;
			}
			case 1: {
				u32 id = next++;
				lock_scoped(m, h, id);
				if (held) waiting.push_back(id);
				else CHECK(h.lk && h.id == id, "operation %zu: a free mutex was not granted", k);
				break;
			}
			default:
				if (!held) break;
				asyncpp::mutex_lock l = std::move(*h.lk);
				h.lk.reset();
				if (coin()) l.unlock();
				else asyncpp::mutex_lock gone = std::move(l);
				if (waiting.empty()) CHECK(!h.lk && !m.is_locked(), "operation %zu: the mutex is still held", k);
				else {
					CHECK(h.lk && h.id == waiting.front(), "operation %zu: unlock() passed the mutex to %u instead of %u", k, h.lk ? h.id : 0, waiting.front());
					waiting.pop_front();
				}
			}
			CHECK(m.is_locked() == h.lk.has_value(), "operation %zu: is_locked() is %d", k, m.is_locked());
		}
		while (h.lk) {
			asyncpp::mutex_lock l = std::move(*h.lk);
			h.lk.reset();
		}
	}
} // namespace
#define S01 {"crowd_mutex", crowd_mutex, 0}, {"life_mutex", life_mutex, 0},
#else
#define S01
#endif

#if PART(2) // C02
#include <asyncpp/event.h>
namespace {
	// one event through a long life; the waiter is told apart by the number of its wait
	template<class E>
	co wait_single(E& e, long& state, long i) {
		co_await e.wait();
		CHECK(state == -i, "wait number %ld resumed in state %ld", i, state);
		state = i;
	}
	template<class E, bool Auto>
	void life() {
		size_t n = big(70000);
		E e(coin());
		bool set = e.is_set();
		long waiting = 0, state = 0, next = 1;
		for (size_t k = 0; k < n; k++) {
			switch (rnd(3)) {
			case 0: {
				bool r = e.set();
				CHECK(r == (waiting != 0), "operation %zu: set() returned %d %s", k, r, waiting ? "although somebody waited" : "although nobody waited");
				if (waiting) {
					CHECK(state == waiting, "operation %zu: set() did not resume the waiter", k);
					waiting = 0;
					set = !Auto;
				} else set = true;
				break;
			}
			case 1:
				if (!waiting) {
					e.reset();
					set = false;
				}
				break;
			default:
				if (waiting) break;
				state = -next;
				wait_single(e, state, next);
				if (set) {
					CHECK(state == next, "operation %zu: waiting on a set event suspended", k);
					if (Auto) set = false;
				} else {
					CHECK(state == -next, "operation %zu: waiting on an unset event returned", k);
					waiting = next;
				}
				next++;
				break;
			}
			CHECK(e.is_set() == set, "operation %zu: is_set() is %d", k, e.is_set());
			CHECK(e.is_awaited() == (waiting != 0), "operation %zu: is_awaited() is %d", k, e.is_awaited());
		}
		if (waiting) e.set();
	}
	void life_single() { coin() ? life<asyncpp::single_consumer_event, false>() : life<asyncpp::single_consumer_auto_reset_event, true>(); }
} // namespace
#define S02 {"life_single", life_single, 0},
#else
#define S02
#endif

#if PART(3) // C03
#include <asyncpp/event.h>
namespace {
	template<class E>
	co wait_one(E& e, std::vector<unsigned char>& got, u32 i) {
		co_await e.wait();
		got[i]++;
	}
	template<class E, bool Auto>
	void crowd_event() {
		size_t n = big(70000);
		E e;
		for (int round = 0; round < 2; round++) {
			std::vector<unsigned char> got(n);
			for (size_t i = 0; i < n; i++) wait_one(e, got, (u32)i);
			for (size_t i = 0; i < n; i++) CHECK(got[i] == 0, "waiter %zu of %zu resumed before the event was set", i, n);
			e.set();
			for (size_t i = 0; i < n; i++) CHECK(got[i] == 1, "set with %zu waiters resumed waiter %zu %d times", n, i, got[i]);
			if (Auto) CHECK(!e.is_set(), "auto reset event still set after it woke %zu waiters", n);
			else {
				CHECK(e.is_set(), "event not set after set");
				e.reset();
			}
		}
	}
	void crowd_multi() {
		coin() ? crowd_event<asyncpp::multi_consumer_event, false>() : crowd_event<asyncpp::multi_consumer_auto_reset_event, true>();
	}
	// one event through a long life, a few waiters at a time
	template<class E>
	co wait_many(E& e, long& resumed) {
		co_await e.wait();
		resumed++;
	}
	template<class E, bool Auto>
	void life_m() {
		size_t n = big(70000);
		E e(coin());
		bool set = e.is_set();
		long waiting = 0, resumed = 0;
		for (size_t k = 0; k < n; k++) {
			long before = resumed;
			switch (rnd(4)) {
			case 0:
				e.set();
				CHECK(resumed == before + waiting, "operation %zu: set() resumed %ld of %ld waiters", k, resumed - before, waiting);
				set = !(Auto && waiting);
				waiting = 0;
				break;
			case 1:
				e.reset();
				CHECK(resumed == before, "operation %zu: reset() resumed somebody", k);
				set = false;
				break;
			default:
				wait_many(e, resumed);
				if (set) {
					CHECK(resumed == before + 1, "operation %zu: waiting on a set event suspended", k);
					if (Auto) set = false;
				} else {
					CHECK(resumed == before, "operation %zu: waiting on an unset event returned", k);
					waiting++;
				}
				break;
			}
			CHECK(e.is_set() == set && e.is_awaited() == (waiting != 0), "operation %zu: is_set() is %d, is_awaited() is %d with %ld waiters", k, e.is_set(), e.is_awaited(), waiting);
		}
		e.set();
	}
	void life_multi() { coin() ? life_m<asyncpp::multi_consumer_event, false>() : life_m<asyncpp::multi_consumer_auto_reset_event, true>(); }
} // namespace
#define S03 {"crowd_multi", crowd_multi, 0}, {"life_multi", life_multi, 0},
#else
#define S03
#endif

#if PART(4) // C04
#include <asyncpp/latch.h>
namespace {
	co latch_one(asyncpp::latch& l, size_t& n) {
		co_await l;
		n++;
	}
	void crowd_latch() {
		size_t n = big(70000), waiters = 1 + rnd(coin() ? 4 : 3000), woken = 0;
		size_t extra = 0; // counts are of type size_t
		switch (rnd(4)) {
		case 0: extra = rnd(1 << 20) << 16; break;
		case 1: extra = rnd(1u << 30) << 8 << rnd(24); break;
		case 2: extra = asyncpp::latch::max - n; break;
		default: break;
		}
		vrt_sig(extra);
		asyncpp::latch l(n + extra);
		for (size_t i = 0; i < waiters; i++) latch_one(l, woken);
		size_t left = n;
		auto dec = [&](size_t k) {
			CHECK(!l.is_ready() && woken == 0, "latch open with a count of %zu (initially %zu)", left + extra, n + extra);
			k == 1 && coin() ? l.decrement() : l.decrement(k);
		};
		while (left > 1) {
			if (extra && coin(3)) {
				size_t k = coin() ? extra : 1 + rnd(extra);
				dec(k);
				extra -= k;
			} else {
				size_t k = 1 + rnd(coin() ? 3 : left - 1);
				if (k >= left) k = 1;
				dec(k);
				left -= k;
			}
		}
		size_t last = left + extra;
		dec(last);
		CHECK(l.is_ready() && woken == waiters, "latch reached zero with %zu waiters: %s, %zu resumed", waiters, l.is_ready() ? "open" : "closed", woken);
	}
} // namespace
#define S04 {"crowd_latch", crowd_latch, 0},
#else
#define S04
#endif

#if PART(5) // C05, C06
#include <asyncpp/channel.h>
namespace {
	co write_one(asyncpp::channel<u32>& c, u32 v, int* res) { *res = co_await c.write(v) ? 1 : 2; }
	co read_one(asyncpp::channel<u32>& c, std::optional<u32>* out, int* res) {
		*out = co_await c.read();
		*res = out->has_value() ? 1 : 2;
	}
	void crowd_channel(bool close) {
		size_t n = big(2000), done = close ? rnd(n) : n;
		bool writers = coin();
		asyncpp::channel<u32> c;
		std::vector<int> res(n), res2(n);
		std::vector<std::optional<u32>> out(n);
		for (size_t i = 0; i < n; i++) writers ? write_one(c, (u32)i, &res[i]) : read_one(c, &out[i], &res[i]);
		for (size_t i = 0; i < done; i++) {
			CHECK(res[i] == 0, "operation %zu completed without a partner", i);
			bool tr = coin();
			if (writers) {
				std::optional<u32> v;
				if (tr) v = c.try_read();
				else {
					read_one(c, &v, &res2[i]);
					CHECK(res2[i] == 1, "read with %zu writers waiting did not complete with a value", n - i);
				}
				CHECK(v && *v == i, "read %zu of %zu delivered %ld", i, n, v ? (long)*v : -1L);
			} else {
				if (tr) CHECK(c.try_write((u32)i), "try_write failed with %zu readers waiting", n - i);
				else {
					write_one(c, (u32)i, &res2[i]);
					CHECK(res2[i] == 1, "write with %zu readers waiting did not complete", n - i);
				}
				CHECK(out[i] && *out[i] == i, "reader %zu of %zu got %ld", i, n, out[i] ? (long)*out[i] : -1L);
			}
			CHECK(res[i] == 1, "waiting operation %zu of %zu did not complete", i, n);
		}
		for (size_t i = done; i < n; i++) CHECK(res[i] == 0, "operation %zu completed without a partner", i);
		c.close();
		for (size_t i = done; i < n; i++) CHECK(res[i] == 2, "close() with %zu waiting operations: number %zu %s", n - done, i - done, res[i] ? "succeeded" : "still waits");
		CHECK(c.is_closed(), "channel not closed");
	}
	void crowd_values() { crowd_channel(false); }
	void crowd_closing() { crowd_channel(true); }
	// one channel through a long life
	void life_values() {
		size_t n = big(70000);
		asyncpp::channel<u32> c;
		struct rd {
			std::optional<u32> v;
			int res = 0;
		};
		std::deque<std::unique_ptr<rd>> readers;
		std::deque<std::pair<u32, std::unique_ptr<int>>> writers;
		u32 next = 0;
		auto feed = [&](u32 v) {
			CHECK(readers.front()->res == 1 && readers.front()->v == v, "the first reader did not get value %u", v);
			readers.pop_front();
		};
		for (size_t k = 0; k < n; k++) {
			bool wr = coin();
			if (readers.size() > 40) wr = true;
			if (writers.size() > 40) wr = false;
			bool tr = coin(3);
			if (wr) {
				u32 v = next++;
				if (tr) {
					bool r = c.try_write(v);
					CHECK(r == !readers.empty(), "operation %zu: try_write() is %d with %zu readers", k, r, readers.size());
					if (r) feed(v);
				} else {
					auto res = std::make_unique<int>(0);
					write_one(c, v, res.get());
					CHECK(*res == !readers.empty(), "operation %zu: write() state %d with %zu readers", k, *res, readers.size());
					if (*res) feed(v);
					else writers.emplace_back(v, std::move(res));
				}
			} else {
				auto r = std::make_unique<rd>();
				if (tr) r->v = c.try_read(), r->res = 1;
				else read_one(c, &r->v, &r->res);
				if (writers.empty()) {
					CHECK(!r->v, "operation %zu: a read got value %u, nobody wrote it", k, *r->v);
					if (!tr) {
						CHECK(r->res == 0, "operation %zu: read() completed without a writer", k);
						readers.push_back(std::move(r));
					}
				} else {
					CHECK(r->res == 1 && r->v && *r->v == writers.front().first, "operation %zu: a read with %zu writers got %ld", k, writers.size(), r->v ? (long)*r->v : -1L);
					CHECK(*writers.front().second == 1, "operation %zu: the writer was not completed", k);
					writers.pop_front();
				}
			}
		}
		c.close();
		for (auto& r : readers) CHECK(r->res == 2, "reader not released");
		for (auto& w : writers) CHECK(*w.second == 2, "writer not released");
	}
} // namespace
#define S05 {"crowd_values", crowd_values, 0}, {"crowd_closing", crowd_closing, 0}, {"life_values", life_values, 0},
#else
#define S05
#endif

#if PART(7) // C07, C08
#include <asyncpp/queue.h>
namespace {
	co push_one(asyncpp::queue<u32>& q, u32 v, int* res) { *res = co_await q.push(std::move(v)) ? 1 : 2; }
	co pop_one(asyncpp::queue<u32>& q, std::optional<u32>* out, int* res) {
		*out = co_await q.pop();
		*res = out->has_value() ? 1 : 2;
	}
	void crowd_queue() {
		size_t n = big(70000), cap = n;
		if (coin(3)) cap = (size_t{1} << 32) + rnd(4) - 1 + (coin() ? 0 : rnd(1000) << 32); // larger than what is pushed
		else if (coin(6)) cap = std::numeric_limits<size_t>::max();
		vrt_sig(cap);
		asyncpp::queue<u32> q(cap);
		std::deque<u32> model;
		u32 next = 0;
		while (model.size() < n) {
			CHECK(q.try_push(u32(next)), "try_push failed with %zu of %zu elements", model.size(), cap);
			model.push_back(next++);
			if (coin(8)) {
				auto v = q.try_pop();
				CHECK(v && *v == model.front(), "try_pop with %zu elements: got %ld, want %u", model.size(), v ? (long)*v : -1L, model.front());
				model.pop_front();
			}
		}
		CHECK(q.size() == n, "size() is %zu with %zu elements", q.size(), n);
		if (cap == n) {
			CHECK(!q.try_push(u32(next)), "more than %zu elements accepted", cap);
			size_t w = 1 + rnd(600); // suspended pushes
			std::vector<int> res(w);
			for (size_t i = 0; i < w; i++) push_one(q, next + (u32)i, &res[i]);
			CHECK(q.size() == n + w, "size() is %zu with %zu elements and %zu suspended pushes", q.size(), n, w);
			for (size_t i = 0; i < w; i++) {
				CHECK(res[i] == 0, "push completed on a full queue");
				auto v = q.try_pop();
				CHECK(v && *v == model.front(), "wrong element");
				model.pop_front();
				model.push_back(next + (u32)i);
				CHECK(res[i] == 1, "suspended push %zu of %zu not completed by a pop", i, w);
			}
		}
		while (!model.empty()) {
			auto v = q.try_pop();
			CHECK(v && *v == model.front(), "try_pop with %zu elements: got %ld, want %u", model.size(), v ? (long)*v : -1L, model.front());
			model.pop_front();
		}
		CHECK(q.empty() && !q.try_pop(), "queue not empty");
		size_t w = 1 + rnd(600); // suspended pops
		std::vector<int> res(w);
		std::vector<std::optional<u32>> out(w);
		for (size_t i = 0; i < w; i++) pop_one(q, &out[i], &res[i]);
		for (size_t i = 0; i < w; i++) {
			CHECK(res[i] == 0, "pop completed on an empty queue");
			CHECK(q.try_push((u32)(i + 7)), "push failed");
			CHECK(res[i] == 1 && out[i] && *out[i] == i + 7, "suspended pop %zu of %zu: state %d", i, w, res[i]);
		}
	}
	void crowd_clear() {
		size_t n = big(70000), w = 1 + rnd(1500);
		bool move = coin();
		asyncpp::queue<u32> q(n);
		for (size_t i = 0; i < n; i++) CHECK(q.try_push((u32)i), "try_push failed with %zu of %zu elements", i, n);
		std::vector<int> res(w);
		for (size_t i = 0; i < w; i++) push_one(q, (u32)(n + i), &res[i]);
		if (move) {
			asyncpp::queue<u32> other = [&]() -> asyncpp::queue<u32> { return std::move(q); }();
			size_t got = 0, failed = 0;
			std::vector<bool> seen(n + w);
			while (auto v = other.try_pop()) {
				CHECK(*v < n + w && !seen[*v], "element %u appeared twice after the move", *v);
				CHECK(*v == got, "element %u popped as number %zu", *v, got);
				seen[*v] = true;
				got++;
			}
			for (size_t i = 0; i < w; i++) {
				CHECK(res[i] != 0, "push %zu still suspended after the queue was emptied", i);
				CHECK((res[i] == 1) == seen[n + i], "push %zu reported %d, its element %s", i, res[i], seen[n + i] ? "was popped" : "was lost");
				failed += res[i] == 2;
			}
			CHECK(got + failed == n + w, "%zu elements popped, %zu pushes failed, %zu pushed", got, failed, n + w);
		} else {
			q.clear();
			for (size_t i = 0; i < w; i++) CHECK(res[i] == 2, "clear() left push %zu of %zu in state %d", i, w, res[i]);
			CHECK(q.empty() && q.size() == 0 && !q.try_pop(), "queue not empty after clear()");
			for (size_t i = 0; i < n; i++) CHECK(q.try_push((u32)i), "only %zu of %zu elements fit after clear()", i, n);
			CHECK(!q.try_push(1u), "more than %zu elements accepted after clear()", n);
		}
	}
	// one queue through a long life
	void life_queue() {
		size_t n = big(70000), cap = 1 + rnd(coin() ? 3 : 40);
		asyncpp::queue<u32> q(cap);
		std::deque<u32> model;
		struct pp {
			std::optional<u32> v;
			int res = 0;
		};
		std::deque<std::unique_ptr<pp>> pops;
		std::deque<std::unique_ptr<int>> pushes; // of the last elements of the model
		u32 next = 0;
		for (size_t k = 0; k < n; k++) {
			bool ps = coin();
			if (pops.size() > 20) ps = true;
			if (pushes.size() > 20) ps = false;
			bool tr = coin(3);
			if (ps) {
				u32 v = next++;
				std::unique_ptr<int> res;
				bool ok, full = model.size() >= cap;
				if (tr) ok = coin() ? q.try_push(u32(v)) : q.try_emplace(v);
				else {
					res = std::make_unique<int>(0);
					push_one(q, v, res.get());
					ok = *res == 1;
				}
				CHECK(ok == !full, "operation %zu: push with %zu of %zu elements: %s", k, model.size(), cap, ok ? "accepted" : "not accepted");
				if (ok && !pops.empty()) {
					CHECK(pops.front()->res == 1 && pops.front()->v == v, "operation %zu: the first pop did not get value %u", k, v);
					pops.pop_front();
				} else if (ok) model.push_back(v);
				else if (!tr) {
					model.push_back(v);
					pushes.push_back(std::move(res));
				}
			} else {
				auto r = std::make_unique<pp>();
				if (tr) r->v = q.try_pop();
				else pop_one(q, &r->v, &r->res);
				if (model.empty()) {
					CHECK(!r->v, "operation %zu: value out of an empty queue", k);
					if (!tr) {
						CHECK(r->res == 0, "operation %zu: pop() of an empty queue completed", k);
						pops.push_back(std::move(r));
					}
				} else {
					CHECK(r->v && *r->v == model.front(), "operation %zu: popped %ld, want %u", k, r->v ? (long)*r->v : -1L, model.front());
					model.pop_front();
					if (!pushes.empty()) {
						CHECK(*pushes.front() == 1, "operation %zu: a pop did not complete the first suspended push", k);
						pushes.pop_front();
					}
				}
			}
			CHECK(q.size() == model.size() && q.empty() == model.empty(), "operation %zu: size() is %zu, empty() is %d with %zu elements", k, q.size(), q.empty(), model.size());
		}
		for (auto& r : pops) {
			CHECK(q.try_push(5u), "push failed");
			CHECK(r->res == 1, "pop not completed");
		}
		while (q.try_pop()) {}
		for (auto& r : pushes) CHECK(*r == 1, "push not completed");
	}
} // namespace
#define S07 {"crowd_queue", crowd_queue, 0}, {"crowd_clear", crowd_clear, 0}, {"life_queue", life_queue, 0},
#else
#define S07
#endif

#if PART(9) // C09
#include <asyncpp/threadsafe_queue.h>
namespace {
	void crowd_tsq() {
		size_t n = big(70000);
		asyncpp::threadsafe_queue<u32> q;
		std::deque<u32> model;
		u32 next = 0;
		while (model.size() < n) {
			if (coin(4)) q.emplace(u32(next));
			else q.push(next);
			model.push_back(next++);
			if (coin(16)) {
				auto v = q.pop();
				CHECK(v && *v == model.front(), "wrong element");
				model.pop_front();
			}
		}
		asyncpp::threadsafe_queue<u32> q2(q), q3(std::move(q));
		for (size_t i = 0; i < n; i++) {
			auto a = q2.pop(), b = q3.pop();
			CHECK(a && b && *a == model[i] && *b == model[i], "element %zu of %zu: %ld and %ld, want %u", i, n, a ? (long)*a : -1L, b ? (long)*b : -1L, model[i]);
		}
		CHECK(!q2.pop() && !q3.pop(), "more elements than were pushed");
	}
} // namespace
#define S09 {"crowd_tsq", crowd_tsq, 0},
#else
#define S09
#endif

#if PART(10) // C10
#include <asyncpp/promise.h>
namespace {
	co await_promise(asyncpp::promise<u32>& p, std::vector<u32>& seen, u32 i) {
		try {
			u32 v = co_await p;
			seen[i] += v;
		} catch (trivial_error& e) { seen[i] += (u32)e.v; }
	}
	void crowd_promise() {
		size_t n = big(70000);
		bool rej = coin();
		asyncpp::promise<u32> p;
		std::vector<u32> seen(n), copies_seen(n);
		std::vector<asyncpp::promise<u32>> handles;
		for (size_t i = 0; i < n; i++) {
			switch (rnd(4)) {
			case 0:
				p.then([&seen, i](const u32& v) { seen[i] += v; },
					   [&seen, i](const std::exception_ptr&) { seen[i] += 1000; });
				break;
			case 1: p.on_settle([&seen, i]() { seen[i] += 1000; }); break;
			case 2: await_promise(p, seen, (u32)i); break;
			case 3:
				handles.push_back(p);
				handles.back().on_settle([&seen, i, q = p]() { seen[i] += q.is_pending() ? 1 : 1000; });
				break;
			}
		}
		bool keep = coin();
		if (!keep) handles.clear();
		for (size_t i = 0; i < n; i++) CHECK(seen[i] == 0, "observer %zu called before the promise was settled", i);
		if (rej) p.reject(std::make_exception_ptr(trivial_error{1000}));
		else p.fulfill(1000u);
		for (size_t i = 0; i < n; i++) CHECK(seen[i] == 1000, "%zu observers: number %zu saw %u in total, want one call with 1000", n, i, seen[i]);
		if (!rej)
			for (auto& hd : handles) CHECK(*hd.try_get() == 1000, "another handle sees another value");
		CHECK(!p.try_fulfill(5u), "settled promise fulfilled again");
	}
} // namespace
#define S10 {"crowd_promise", crowd_promise, 0},
#else
#define S10
#endif

#if PART(12) // C12
#include <asyncpp/thread_pool.h>
namespace {
	void crowd_pool() {
		size_t n = big(70000), workers = 1 + rnd(4);
		auto ran = std::make_unique<std::atomic<unsigned char>[]>(n);
		std::atomic<size_t> strangers{0};
		bool inside = coin(3);
		{
			asyncpp::thread_pool pool(workers);
			auto task = [&](size_t i) {
				return [&, i]() {
					ran[i]++;
					if (asyncpp::dispatcher::current() != &pool) strangers++;
				};
			};
			if (inside) pool.push([&]() {
					for (size_t i = 0; i < n; i++) pool.push(task(i));
				});
			else
				for (size_t i = 0; i < n; i++) pool.push(task(i));
			if (coin()) pool.resize(workers + rnd(3));
			if (coin() && workers > 1) pool.resize(1 + rnd(workers));
		}
		CHECK(strangers == 0, "%zu tasks ran with another dispatcher", strangers.load());
		for (size_t i = 0; i < n; i++) CHECK(ran[i] == 1, "%zu tasks pushed%s: task %zu ran %d times", n, inside ? " from a task" : "", i, ran[i].load());
	}
	void life_pool() { // many resizes
		size_t n = big(300), workers = 1 + rnd(3);
		std::atomic<size_t> ran{0};
		size_t pushed = 0;
		{
			asyncpp::thread_pool pool(workers);
			for (size_t k = 0; k < n; k++) {
				for (size_t i = rnd(4); i; i--) {
					pool.push([&]() { ran++; });
					pushed++;
				}
				size_t to = 1 + rnd(3);
				pool.resize(to);
				CHECK(pool.size() == to, "resize %zu to %zu: size() is %zu", k, to, pool.size());
			}
		}
		CHECK(ran == pushed, "%zu tasks pushed between %zu resizes, %zu ran", pushed, n, ran.load());
	}
} // namespace
#define S12 {"crowd_pool", crowd_pool, VRT_NOLEAK}, {"life_pool", life_pool, VRT_NOLEAK},
#else
#define S12
#endif

#if PART(13) // C13
#include <asyncpp/simple_dispatcher.h>
namespace {
	void crowd_dispatcher() {
		size_t n = big(70000), at = 0;
		asyncpp::simple_dispatcher d;
		bool chained = coin(3);
		size_t extra = 0;
		for (size_t i = 0; i < n; i++)
			d.push([&, i]() {
				CHECK(at == i, "task %zu ran as number %zu", i, at);
				at++;
				if (chained && i % 100 == 0) d.push([&]() { extra++; });
				if (i == n - 1) d.push([&]() { d.stop(); });
			});
		d.run();
		CHECK(at == n, "%zu of %zu tasks ran before the one that stopped the dispatcher", at, n);
		if (chained) CHECK(extra == (n - 1) / 100 + 1, "tasks pushed by tasks: %zu of %zu ran", extra, (n - 1) / 100 + 1);
	}
} // namespace
#define S13 {"crowd_dispatcher", crowd_dispatcher, 0},
#else
#define S13
#endif

#if PART(14) // C14, C15
#include <asyncpp/stop_token.h>
#include <asyncpp/timer.h>
namespace {
	void crowd_timer() {
		size_t n = big(20000);
		std::vector<std::atomic<unsigned char>> fired(n), early(n);
		std::vector<u32> order;
		auto base = steady::now();
		std::vector<long> off(n);
		bool same = coin();
		for (auto& o : off) o = same ? 0 : (long)rnd(4000) - 1000;
		{
			asyncpp::timer t;
			for (size_t i = 0; i < n; i++) {
				auto tp = base + std::chrono::microseconds(off[i]);
				t.schedule([&, i, tp](bool ok) {
					fired[i] += ok ? 1 : 100;
					if (steady::now() < tp) early[i] = 1;
				}, tp);
			}
			auto until = steady::now() + std::chrono::seconds(60);
			std::atomic<bool> last{false};
			t.schedule([&](bool) { last = true; }, base + std::chrono::milliseconds(5));
			while (!last && steady::now() < until) std::this_thread::yield();
			CHECK(last, "an entry due since a minute has not fired (%zu entries)", n);
		}
		for (size_t i = 0; i < n; i++) {
			CHECK(fired[i] == 1, "%zu entries: entry %zu was called %d times (100 per cancellation)", n, i, fired[i].load());
			CHECK(!early[i], "entry %zu fired early", i);
		}
	}
	void crowd_cancel() {
		size_t n = big(8000);
		bool one = coin();
		std::vector<asyncpp::stop_source> src(one ? 1 : n);
		std::vector<std::atomic<unsigned char>> fired(n);
		std::vector<bool> cancelled(n);
		auto far = steady::now() + std::chrono::hours(1);
		{
			asyncpp::timer t;
			for (size_t i = 0; i < n; i++)
				t.schedule([&, i](bool ok) { fired[i] += ok ? 100 : 1; }, far + std::chrono::microseconds(rnd(100)), src[one ? 0 : i].get_token());
			auto p = permutation(src.size());
			size_t stop = coin() ? src.size() : rnd(src.size());
			for (size_t k = 0; k < stop; k++) {
				CHECK(src[p[k]].request_stop(), "request_stop was not the first");
				cancelled[p[k]] = true;
			}
			auto until = steady::now() + std::chrono::seconds(60);
			for (size_t i = 0; i < n; i++)
				if (cancelled[one ? 0 : i])
					while (!fired[i]) {
						CHECK(steady::now() < until, "cancelled entry %zu of %zu is not called", i, n);
						std::this_thread::yield();
					}
			for (size_t i = 0; i < n; i++)
				if (!cancelled[one ? 0 : i]) CHECK(fired[i] == 0, "entry %zu called an hour early", i);
		}
		for (size_t i = 0; i < n; i++) CHECK(fired[i] == 1, "%zu entries: entry %zu was called %d times (100 per firing)", n, i, fired[i].load());
	}
} // namespace
#define S14 {"crowd_timer", crowd_timer, VRT_NOLEAK}, {"crowd_cancel", crowd_cancel, VRT_NOLEAK},
#else
#define S14
#endif

#if PART(16) // C16
#include <asyncpp/stop_token.h>
namespace {
	void crowd_stop() {
		size_t n = big(70000);
		int kind = (int)rnd(3);
		vrt_sig(kind);
		if (kind == 0) { // sources
			std::optional<asyncpp::stop_source> first(std::in_place);
			auto tok = first->get_token();
			std::vector<asyncpp::stop_source> s;
			for (size_t i = 0; i < n; i++) {
				CHECK(tok.stop_possible() && !tok.stop_requested(), "stop not possible or requested with %zu sources", i + 1);
				s.push_back(*first);
			}
			CHECK(tok.stop_possible() && !tok.stop_requested(), "stop not possible or requested with %zu sources", n + 1);
			if (coin()) {
				first.reset();
				s.clear();
				CHECK(!tok.stop_possible() && !tok.stop_requested(), "stop still possible after %zu sources are gone", n + 1);
			} else {
				size_t keep = rnd(n);
				auto k = s[keep];
				first.reset();
				s.clear();
				CHECK(tok.stop_possible() && !tok.stop_requested(), "stop not possible with one of %zu sources left", n + 1);
				CHECK(k.request_stop(), "request_stop failed");
				CHECK(tok.stop_requested() && tok.stop_possible() && !k.request_stop(), "stop requested but not visible");
			}
		} else if (kind == 1) { // tokens
			std::optional<asyncpp::stop_source> first(std::in_place);
			std::vector<asyncpp::stop_token> t;
			for (size_t i = 0; i < n; i++) t.push_back(coin() || t.empty() ? first->get_token() : t[rnd(t.size())]);
			for (auto& x : t) CHECK(x.stop_possible() && !x.stop_requested() && x == t[0], "token broken with %zu tokens", n);
			bool req = coin();
			if (req) first->request_stop();
			first.reset();
			size_t drop = rnd(n);
			t.erase(t.begin() + (long)drop, t.end());
			for (auto& x : t) CHECK(x.stop_requested() == req && x.stop_possible() == req, "token sees requested %d, possible %d", x.stop_requested(), x.stop_possible());
		} else { // callbacks
			asyncpp::stop_source src;
			auto tok = src.get_token();
			std::vector<unsigned char> ran(n);
			struct cb {
				unsigned char* p;
				void operator()() const noexcept { ++*p; }
			};
			std::vector<std::unique_ptr<asyncpp::stop_callback<cb>>> cbs;
			for (size_t i = 0; i < n; i++) cbs.push_back(std::make_unique<asyncpp::stop_callback<cb>>(tok, cb{&ran[i]}));
			auto p = permutation(n);
			size_t drop = coin() ? rnd(n) : 0;
			for (size_t k = 0; k < drop; k++) cbs[p[k]].reset();
			for (size_t i = 0; i < n; i++) CHECK(ran[i] == 0, "callback ran without a request");
			CHECK(src.request_stop(), "request_stop failed");
			for (size_t k = 0; k < n; k++) CHECK(ran[p[k]] == (k >= drop), "%zu callbacks, %zu removed: callback %u ran %d times", n, drop, p[k], ran[p[k]]);
			size_t later = 0;
			asyncpp::stop_callback c(tok, [&]() { later++; });
			CHECK(later == 1, "callback registered after the request ran %zu times", later);
		}
	}
} // namespace
#define S16 {"crowd_stop", crowd_stop, 0},
#else
#define S16
#endif

#if PART(20) // C20
#include <asyncpp/fire_and_forget.h>
namespace {
	template<class T>
	T ff_body(int* ran, std::shared_ptr<int> owned) {
		++*ran;
		CHECK(*owned == 5, "parameter damaged");
		co_return;
	}
	void crowd_handles() {
		size_t n = big(70000);
		int ran = 0;
		auto own = std::make_shared<int>(5);
		bool eager = coin(3);
		auto go = [&](auto t0) {
			using T = decltype(t0);
			std::vector<T> v;
			v.reserve(n);
			for (size_t i = 0; i + 1 < n; i++) v.push_back(coin() || v.empty() ? t0 : v[rnd(v.size())]);
			v.push_back(std::move(t0));
			CHECK(ran == (eager ? 1 : 0), "body ran %d times after %zu copies of the handle", ran, n);
			size_t started = coin(4) ? n : rnd(n);
			auto p = permutation(n);
			bool dead = false;
			for (size_t k = 0; k < n; k++) {
				if constexpr (requires { v[0].start(); }) {
					CHECK(own.use_count() == 2, "frame freed with %zu of %zu handles left", n - k, n);
					if (k == started || (k > started && coin(50))) v[p[k]].start();
					CHECK(ran == (k >= started), "body ran %d times", ran);
				} else CHECK(own.use_count() == 2, "frame freed with %zu of %zu handles left", n - k, n);
				T drop = std::move(v[p[k]]);
				dead = k == n - 1;
			}
			(void)dead;
			v.clear();
			CHECK(own.use_count() == 1, "frame not freed after %zu handles were destroyed", n);
		};
		if (eager) go(ff_body<asyncpp::eager_fire_and_forget_task<>>(&ran, own));
		else go(ff_body<asyncpp::fire_and_forget_task<>>(&ran, own));
	}
} // namespace
#define S20 {"crowd_handles", crowd_handles, 0},
#else
#define S20
#endif

#if PART(21) // C21
#include <asyncpp/launch.h>
namespace {
	co join_one(asyncpp::async_launch_scope& s, int& joined) {
		co_await s.join();
		joined++;
	}
	void crowd_scope() {
		size_t n = big(70000);
		asyncpp::async_launch_scope s;
		std::vector<gate> g(n);
		size_t next = 0, done = 0;
		for (int round = 0; round < 2 && next < n; round++) {
			size_t to = round ? n : 1 + rnd(n);
			size_t first = next;
			for (; next < to; next++) s.launch(gate_ref{&g[next]});
			CHECK(s.inflight_coroutines() == next - first && s.all_done() == (next == first), "%zu children in flight, %zu reported", next - first, s.inflight_coroutines());
			int joined = 0;
			size_t before = coin() ? 0 : rnd(next - first);
			auto p = permutation(next - first);
			for (size_t k = 0; k < before; k++) g[first + p[k]].h.resume();
			join_one(s, joined);
			for (size_t k = before; k < p.size(); k++) {
				CHECK(joined == 0, "join returned with %zu of %zu children running", p.size() - k, p.size());
				CHECK(s.inflight_coroutines() == p.size() - k, "%zu children in flight, %zu reported", p.size() - k, s.inflight_coroutines());
				g[first + p[k]].h.resume();
			}
			CHECK(joined == 1 && s.all_done(), "join of %zu children returned %d times after the last", p.size(), joined);
			done += p.size();
		}
		CHECK(done == next, "lost children");
	}
	// one scope through a long life
	void life_scope() {
		size_t n = big(70000);
		asyncpp::async_launch_scope s;
		for (size_t k = 0; k < n; k++) {
			size_t m = rnd(4);
			gate g[3];
			int joined = 0;
			for (size_t i = 0; i < m; i++) coin() ? s.launch(gate_ref{&g[i]}) : s.invoke([](gate* x) { return gate_ref{x}; }, &g[i]);
			if (m && coin(4)) m--, g[m].h.resume();
			join_one(s, joined);
			for (size_t i = 0; i < m; i++) {
				CHECK(joined == 0 && s.inflight_coroutines() == m - i, "round %zu: join returned %d times, %zu children reported of %zu", k, joined, s.inflight_coroutines(), m - i);
				g[i].h.resume();
			}
			CHECK(joined == 1 && s.all_done(), "round %zu: join returned %d times", k, joined);
		}
	}
} // namespace
#define S21 {"crowd_scope", crowd_scope, 0}, {"life_scope", life_scope, 0},
#else
#define S21
#endif

#if PART(23) // C23, C24
#include <asyncpp/ref.h>
namespace {
	template<class C>
	struct obj : asyncpp::intrusive_refcount<obj<C>, C> {
		int* dead;
		explicit obj(int* d) : dead(d) {}
		~obj() noexcept { ++*dead; }
		using asyncpp::intrusive_refcount<obj<C>, C>::use_count;
	};
	template<class C>
	void refs() {
		size_t n = big(70000);
		int dead = 0;
		{
			auto first = asyncpp::make_ref<obj<C>>(&dead);
			auto* raw = first.get();
			std::vector<asyncpp::ref<obj<C>>> v;
			v.reserve(n);
			for (size_t i = 0; i < n; i++) v.push_back(coin() || v.empty() ? first : v[rnd(v.size())]);
			CHECK(raw->use_count() == n + 1, "use_count() is %zu with %zu references", raw->use_count(), n + 1);
			first.reset();
			auto p = permutation(n);
			for (size_t k = 0; k < n; k++) {
				CHECK(dead == 0, "object destroyed with %zu of %zu references left", n - k, n);
				v[p[k]].reset();
			}
			CHECK(dead == 1, "object destroyed %d times after the last of %zu references", dead, n);
		}
		CHECK(dead == 1, "object destroyed %d times", dead);
	}
	template<class C>
	void counters() { // counts are of type size_t
		vrt_nontrivial();
		size_t base = size_t{1} << (8 + rnd(55)), n = base + rnd(4) - 2;
		vrt_sig(n);
		C c(n);
		CHECK(c.count() == n, "counter initialised with %zu is %zu", n, (size_t)c.count());
		for (size_t k = 0; k < 5; k++, n++) {
			size_t v = c.fetch_increment();
			CHECK(v == n && c.count() == n + 1, "increment of %zu returned %zu, left %zu", n, v, (size_t)c.count());
		}
		for (size_t k = 0; k < 8; k++, n--) {
			size_t v = c.fetch_decrement();
			CHECK(v == n && c.count() == n - 1, "decrement of %zu returned %zu, left %zu", n, v, (size_t)c.count());
		}
	}
	void crowd_refs() {
		switch (rnd(6)) {
		case 0: counters<asyncpp::thread_safe_refcount>(); break;
		case 1: counters<asyncpp::thread_unsafe_refcount>(); break;
		case 2:
		case 3: refs<asyncpp::thread_safe_refcount>(); break;
		default: refs<asyncpp::thread_unsafe_refcount>(); break;
		}
	}
	void crowd_cells() {
		size_t n = big(70000);
		int dead = 0;
		using O = obj<asyncpp::thread_safe_refcount>;
		{
			asyncpp::atomic_ref<O> src(asyncpp::make_ref<O>(&dead));
			std::deque<asyncpp::atomic_ref<O>> cells;
			std::vector<asyncpp::ref<O>> refs;
			for (size_t i = 0; i < n; i++) {
				if (coin()) refs.push_back(src.load());
				else {
					cells.emplace_back();
					cells.back() = src;
				}
			}
			auto* raw = src.load().get();
			CHECK(raw->use_count() == n + 1, "use_count() is %zu with %zu references", raw->use_count(), n + 1);
			src.reset();
			CHECK(dead == 0, "object destroyed with %zu references left", n);
			while (!refs.empty() || !cells.empty()) {
				CHECK(dead == 0, "object destroyed with %zu references left", refs.size() + cells.size());
				if (!refs.empty() && (cells.empty() || coin())) refs.pop_back();
				else {
					CHECK(cells.front() == raw, "cell lost its object");
					cells.pop_front();
				}
			}
			CHECK(dead == 1, "object destroyed %d times after the last reference", dead);
		}
		CHECK(dead == 1, "object destroyed %d times", dead);
	}
	// a few cells and references to a few objects through many operations
	void life_cells() {
		size_t n = big(70000);
		using O = obj<asyncpp::thread_safe_refcount>;
		const int N = 5;
		int dead[N] = {};
		{
			asyncpp::atomic_ref<O> cell[3];
			asyncpp::ref<O> ref[3];
			int at[6]; // which object each of them refers to, -1: none
			std::fill(at, at + 6, -1);
			O* raw[N] = {};
			auto count = [&](int o) { return (size_t)std::count(at, at + 6, o); };
			for (size_t k = 0; k < n; k++) {
				int c = (int)rnd(3), r = (int)rnd(3);
				switch (rnd(7)) {
				case 0: {
					int o = (int)rnd(N);
					if (count(o)) break;
					dead[o] = 0;
					ref[r] = asyncpp::make_ref<O>(&dead[o]);
					raw[o] = ref[r].get();
					at[3 + r] = o;
					break;
				}
				case 1: ref[r] = cell[c].load(); at[3 + r] = at[c]; break;
				case 2: cell[c].store(ref[r]); at[c] = at[3 + r]; break;
				case 3: ref[r] = cell[c].exchange(std::move(ref[r])); std::swap(at[c], at[3 + r]); break;
				case 4: {
					int d = (int)rnd(3);
					cell[c] = cell[d];
					at[c] = at[d];
					break;
				}
				case 5:
					if (coin()) {
						cell[c].reset();
						at[c] = -1;
					} else {
						ref[r].reset(cell[c].load().get());
						at[3 + r] = at[c];
					}
					break;
				case 6: cell[c] = std::move(ref[r]); at[c] = at[3 + r]; at[3 + r] = -1; break;
				}
				for (int o = 0; o < N; o++) {
					size_t want = count(o);
					if (!raw[o]) continue;
					if (want == 0) {
						CHECK(dead[o] == 1, "operation %zu: object without references destroyed %d times", k, dead[o]);
						raw[o] = nullptr;
					} else {
						CHECK(dead[o] == 0, "operation %zu: object destroyed with %zu references", k, want);
						CHECK(raw[o]->use_count() == want, "operation %zu: %zu references, use_count() is %zu", k, want, raw[o]->use_count());
					}
				}
				for (int i = 0; i < 3; i++) {
					CHECK(cell[i] == (at[i] < 0 ? nullptr : raw[at[i]]), "operation %zu: cell %d refers to something else", k, i);
					CHECK(ref[i].get() == (at[3 + i] < 0 ? nullptr : raw[at[3 + i]]), "operation %zu: reference %d refers to something else", k, i);
				}
			}
		}
	}
} // namespace
#define S23 {"crowd_refs", crowd_refs, 0}, {"crowd_cells", crowd_cells, 0}, {"life_cells", life_cells, 0},
#else
#define S23
#endif

#if PART(25) // C25
#include <asyncpp/signal.h>
namespace {
	template<class T>
	void signals() {
		size_t n = big(70000);
		auto alive = std::make_shared<int>(0);
		std::vector<u32> calls(n), order;
		std::optional<asyncpp::signal<void(int), T>> gone(std::in_place);
		auto& s = *gone;
		std::vector<asyncpp::signal_handle> hd(n);
		std::deque<u32> want;
		bool churn = coin(); // subscribers that come and go while others stay
		for (size_t i = 0; i < n; i++) {
			auto fn = [&calls, &order, i, alive](int v) {
				calls[i] += (u32)v;
				order.push_back((u32)i);
			};
			bool front = coin(4);
			hd[i] = front ? s.prepend(fn) : coin(3) ? (s += fn) : s.append(fn);
			CHECK(hd[i].valid(), "subscription %zu is not connected", i);
			if (churn && i >= 2 && !coin(1000)) {
				if (coin()) CHECK(s.remove(hd[i]), "remove failed");
				else hd[i].disconnect();
				if (!coin(64)) continue;
				s(0); // cleans up
				order.clear();
			} else if (front) want.push_front((u32)i);
			else want.push_back((u32)i);
		}
		auto expect = [&](const char* what) {
			order.clear();
			std::fill(calls.begin(), calls.end(), 0);
			size_t r = s(3);
			CHECK(r == want.size() && order.size() == want.size(), "%s: %zu subscribers of %zu ever connected, %zu called, %zu reported", what, want.size(), n, order.size(), r);
			for (size_t k = 0; k < want.size(); k++) CHECK(order[k] == want[k] && calls[want[k]] == 3, "%s: subscriber %u called as number %zu (want %u)", what, order[k], k, want[k]);
			CHECK(s.size() == want.size(), "%s: size() is %zu with %zu subscribers", what, s.size(), want.size());
		};
		expect("all connected");
		for (u32 i : want) CHECK(hd[i].valid() && (n > 600 || s.owns_handle(hd[i])), "subscriber %u of %zu lost its connection", i, want.size());
		std::deque<u32> left;
		for (u32 i : want) {
			if (coin(3)) {
				if (n < 3000 && coin()) CHECK(s.remove(hd[i]), "remove failed");
				else hd[i].disconnect();
			} else left.push_back(i);
		}
		want = left;
		expect("some disconnected");
		bool moved = coin();
		if (moved) {
			asyncpp::signal<void(int), T> t(std::move(s));
			CHECK(s(1) == 0 && s.size() == 0, "moved from signal has subscribers");
			s = std::move(t);
			expect("moved");
		}
		// all callbacks go with the signal, whatever handles are left
		size_t kept = rnd(3) == 0 ? n : rnd(3);
		hd.resize(std::min(n, kept));
		if (coin()) s = asyncpp::signal<void(int), T>();
		else gone.reset();
		CHECK(alive.use_count() <= 1 + (long)hd.size(), "%ld callbacks of %zu are left, there are %zu handles", alive.use_count() - 1, n, hd.size());
		if (coin()) std::reverse(hd.begin(), hd.end());
		hd.clear();
		CHECK(alive.use_count() == 1, "%ld callbacks are left", alive.use_count() - 1);
	}
	void crowd_signal() { coin() ? signals<asyncpp::signal_traits_mt>() : signals<asyncpp::signal_traits_st>(); }
	// one signal through a long life: subscribers come and go around a few that stay
	template<class T>
	void life_s() {
		size_t n = big(70000);
		asyncpp::signal<void(int), T> s;
		std::deque<std::pair<u32, asyncpp::signal_handle>> subs;
		std::vector<u32> order;
		u32 next = 0;
		for (size_t k = 0; k < n; k++) {
			switch (rnd(5)) {
			case 0:
			case 1:
				if (subs.size() < 12) {
					u32 id = next++;
					auto fn = [&order, id](int) { order.push_back(id); };
					if (coin()) subs.emplace_back(id, s.append(fn));
					else subs.emplace_front(id, s.prepend(fn));
				}
				break;
			case 2:
				if (!subs.empty()) {
					size_t i = coin() ? subs.size() - 1 - rnd(std::min<size_t>(2, subs.size())) : rnd(subs.size());
					if (coin()) CHECK(s.remove(subs[i].second), "operation %zu: remove failed", k);
					else subs[i].second.disconnect();
					subs.erase(subs.begin() + (long)i);
				}
				break;
			default: {
				order.clear();
				size_t r = s(1);
				CHECK(r == subs.size() && order.size() == subs.size(), "operation %zu: %zu subscribers, %zu called, %zu reported (%u ever connected)", k, subs.size(), order.size(), r, next);
				for (size_t i = 0; i < order.size(); i++) CHECK(order[i] == subs[i].first, "operation %zu: wrong order", k);
			}
			}
		}
		for (auto& x : subs) CHECK(x.second.valid() && s.owns_handle(x.second), "subscriber %u of %u lost its connection", x.first, next);
	}
	void life_signal() { coin() ? life_s<asyncpp::signal_traits_mt>() : life_s<asyncpp::signal_traits_st>(); }
} // namespace
#define S25 {"crowd_signal", crowd_signal, 0}, {"life_signal", life_signal, 0},
#else
#define S25
#endif

#if PART(26) // C26
#include <asyncpp/signal.h>
namespace {
	void crowd_manager() {
		size_t n = big(20000);
		asyncpp::signal_manager<size_t, void(int)> m;
		std::vector<u32> calls(n);
		std::vector<asyncpp::signal_handle> hd(n);
		std::vector<size_t> ev(n);
		for (size_t i = 0; i < n; i++) {
			ev[i] = (i % (1 + n / 3)) << rnd(2) * 32;
			hd[i] = m.append(ev[i], [&calls, i](int v) { calls[i] += (u32)v; });
		}
		std::map<size_t, size_t> per;
		for (auto e : ev) per[e]++;
		for (auto& [e, k] : per) {
			size_t r = m(e, 2);
			CHECK(r == k, "event %zu called %zu of %zu subscribers (%zu events)", e, r, k, per.size());
		}
		for (size_t i = 0; i < n; i++) {
			CHECK(calls[i] == 2, "subscriber %zu called %u times", i, calls[i] / 2);
			CHECK(m.owns_handle(ev[i], hd[i]), "handle %zu is not known to its event", i);
		}
		size_t gone = 0;
		for (size_t i = 0; i < n; i++)
			if (coin()) {
				CHECK(m.remove(ev[i], hd[i]), "remove failed");
				if (--per[ev[i]] == 0) gone++;
			}
		size_t r = m.shrink_to_fit();
		CHECK(r == gone, "%zu events have no subscribers, shrink_to_fit() removed %zu", gone, r);
		for (auto& [e, k] : per) CHECK(m(e, 2) == k, "event %zu has lost subscribers", e);
	}
} // namespace
#define S26 {"crowd_manager", crowd_manager, 0},
#else
#define S26
#endif

#if PART(27) // C27
#include <asyncpp/fiber.h>
namespace {
	co await_fiber(asyncpp::fiber<long>& f, long& sum) { sum += co_await f; }
	void crowd_fibers() {
		size_t n = big(600), reps = 1 + rnd(3);
		std::vector<gate> g(n);
		std::vector<long> sum(n);
		std::deque<asyncpp::fiber<long>> f;
		for (size_t i = 0; i < n; i++) {
			f.emplace_back([&g, i, reps]() -> long {
				volatile long x = (long)i;
				for (size_t r = 0; r < reps; r++) {
					fib_await gate_ref{&g[i]};
					x = x + 1;
				}
				return x;
			});
		}
		for (size_t i = 0; i < n; i++) await_fiber(f[i], sum[i]);
		for (size_t r = 0; r < reps; r++) {
			auto p = permutation(n);
			for (size_t k = 0; k < n; k++) {
				CHECK(sum[p[k]] == 0, "fiber finished early");
				g[p[k]].h.resume();
			}
		}
		for (size_t i = 0; i < n; i++) CHECK(sum[i] == (long)(i + reps), "fiber %zu of %zu returned %ld", i, n, sum[i]);
	}
	void life_fibers() { // few fibers, many switches
		size_t n = big(70000), m = 1 + rnd(4);
		std::vector<gate> g(m);
		std::vector<long> sum(m), steps(m);
		{
			std::deque<asyncpp::fiber<long>> f;
			for (size_t i = 0; i < m; i++) {
				f.emplace_back([&g, &steps, i, n]() -> long {
					double acc = 1;
					for (size_t r = 0; r < n; r++) {
						fib_await gate_ref{&g[i]};
						steps[i]++;
						acc = acc * 0.5 + 1;
					}
					return acc > 1.9 || n < 8 ? (long)n : -1;
				});
			}
			for (size_t i = 0; i < m; i++) await_fiber(f[i], sum[i]);
			size_t total = n * m, k = 0;
			while (k < total) {
				size_t i = rnd(m), burst = coin() ? 1 : rnd(200);
				for (; burst && steps[i] < (long)n; burst--, k++) {
					long b = steps[i];
					g[i].h.resume();
					CHECK(steps[i] == b + 1, "a resumption made %ld steps", steps[i] - b);
				}
			}
		}
		for (size_t i = 0; i < m; i++) CHECK(sum[i] == (long)n, "fiber %zu returned %ld after %zu switches", i, sum[i], n);
	}
} // namespace
#define S27 {"crowd_fibers", crowd_fibers, 0}, {"life_fibers", life_fibers, 0},
#else
#define S27
#endif

SCENARIOS(S01 S02 S03 S04 S05 S07 S09 S10 S12 S13 S14 S16 S20 S21 S23 S25 S26 S27)
