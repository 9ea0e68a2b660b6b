// Self test of rt/: all the standard primitives an implementation may use are understood by the runtime.
// Not part of any check; run by tools/selftest.sh. The scenarios bad_* must be reported.
#include <atomic>
#include <barrier>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <future>
#include <latch>
#include <memory>
#include <mutex>
#include <semaphore>
#include <shared_mutex>
#include <stop_token>
#include <thread>
#include <vector>
#include "../rt/vrt.h"
using namespace std::chrono_literals;
static void par(int n, auto f) {
	std::vector<std::thread> t;
	for (int i = 0; i < n; i++) t.emplace_back([=] { f(i); });
	for (auto& x : t) x.join();
}
template<class M>
static void excl() {
	M m;
	int v = 0;
	par(3, [&](int) {
		for (int i = 0; i < 3; i++) {
			std::lock_guard<M> l(m);
			v++;
		}
	});
	if (v != 9) vrt_fail("self", "lost update %d", v);
}
struct spin {
	std::atomic_flag f;
	void lock() {
		while (f.test_and_set(std::memory_order_acquire)) std::this_thread::yield();
	}
	void unlock() { f.clear(std::memory_order_release); }
};
struct spin_wait {
	std::atomic_flag f;
	void lock() {
		while (f.test_and_set(std::memory_order_acquire)) f.wait(true, std::memory_order_relaxed);
	}
	void unlock() {
		f.clear(std::memory_order_release);
		f.notify_one();
	}
};
struct ticket {
	std::atomic<unsigned> next{0}, cur{0};
	void lock() {
		unsigned t = next.fetch_add(1, std::memory_order_relaxed);
		for (unsigned c; (c = cur.load(std::memory_order_acquire)) != t;) cur.wait(c);
	}
	void unlock() {
		cur.fetch_add(1, std::memory_order_release);
		cur.notify_all();
	}
};
struct sem { // acquire() of libstdc++ 13 can miss a wake-up (PR 104928), which the runtime reports
	std::binary_semaphore s{1};
	void lock() {
		while (!s.try_acquire()) std::this_thread::yield();
	}
	void unlock() { s.release(); }
};
struct pspin {
	pthread_spinlock_t s;
	pspin() { pthread_spin_init(&s, 0); }
	void lock() { pthread_spin_lock(&s); }
	void unlock() { pthread_spin_unlock(&s); }
};
struct timed {
	std::timed_mutex m;
	void lock() {
		while (!m.try_lock_for(1ms)) {}
	}
	void unlock() { m.unlock(); }
};
struct stimed {
	std::shared_timed_mutex m;
	void lock() {
		while (!m.try_lock_until(std::chrono::steady_clock::now() + 1ms)) {}
	}
	void unlock() { m.unlock(); }
};
struct ptr_lock { // 64 bit atomic wait goes through the proxy of libstdc++
	std::atomic<void*> p{nullptr};
	void lock() {
		void* e = nullptr;
		while (!p.compare_exchange_strong(e, this)) {
			p.wait(e);
			e = nullptr;
		}
	}
	void unlock() {
		p.store(nullptr);
		p.notify_all();
	}
};
static void shared() {
	std::shared_mutex m;
	int v = 0;
	par(3, [&](int i) {
		if (i) {
			std::unique_lock l(m);
			v++;
		} else {
			std::shared_lock l(m);
			if (v > 2) vrt_fail("self", "v");
		}
	});
}
static void recursive() {
	std::recursive_mutex m;
	int v = 0;
	par(2, [&](int) {
		std::scoped_lock l(m);
		std::scoped_lock k(m);
		v++;
	});
}
template<class CV, class M>
static void cv() {
	M m;
	CV c;
	std::deque<int> q;
	int got = 0;
	std::thread a([&] {
		for (int i = 0; i < 3; i++) {
			std::unique_lock<M> l(m);
			c.wait(l, [&] { return !q.empty(); });
			got += q.front();
			q.pop_front();
		}
		std::unique_lock<M> l(m);
		if (c.wait_for(l, 5ms, [&] { return !q.empty(); })) vrt_fail("self", "item");
	});
	for (int i = 1; i < 4; i++) {
		std::unique_lock<M> l(m);
		q.push_back(i);
		l.unlock();
		c.notify_one();
	}
	a.join();
	if (got != 6) vrt_fail("self", "got %d", got);
}
static void barriers() {
	std::latch l(3);
	std::barrier b(3);
	std::counting_semaphore<4> s(0);
	int v[3] = {};
	par(3, [&](int i) {
		v[i] = 1;
		l.arrive_and_wait();
		if (v[0] + v[1] + v[2] != 3) vrt_fail("self", "latch");
		b.arrive_and_wait();
		v[i] = 2;
		b.arrive_and_wait();
		if (v[0] + v[1] + v[2] != 6) vrt_fail("self", "barrier");
		if (i) s.release();
		else {
			for (int n = 0; n < 2; n += s.try_acquire()) std::this_thread::yield();
			if (s.try_acquire_for(1ms)) vrt_fail("self", "semaphore");
		}
	});
}
static void once_future() {
	std::once_flag o;
	int n = 0;
	std::promise<int> p;
	auto f = p.get_future().share();
	par(3, [&](int i) {
		std::call_once(o, [&] {
			n++;
			p.set_value(5);
		});
		if (f.get() != 5 || n != 1) vrt_fail("self", "future");
	});
}
static void shared_ptrs() {
	auto p = std::make_shared<int>(1);
	std::weak_ptr<int> w = p;
	std::atomic<std::shared_ptr<int>> a{p};
	p.reset();
	par(3, [&](int i) {
		if (i == 0) a.store(std::make_shared<int>(2));
		else if (auto q = a.load(); *q != 1 && *q != 2) vrt_fail("self", "value");
		if (auto q = w.lock(); q && *q != 1) vrt_fail("self", "value");
	});
}
static void jthreads() {
	std::mutex m;
	std::condition_variable_any c;
	bool done = false;
	std::jthread t([&](std::stop_token st) {
		std::unique_lock l(m);
		c.wait(l, st, [] { return false; });
		done = true;
	});
	t.request_stop();
	t.join();
	if (!done) vrt_fail("self", "not done");
}
static void bad_race() {
	int v = 0;
	par(2, [&](int) { v++; });
}
static void bad_publish() {
	int v = 0;
	std::atomic<bool> f{false};
	std::thread t([&] {
		v = 1;
		f.store(true, std::memory_order_relaxed);
	});
	if (f.load(std::memory_order_acquire)) vrt_sig(v);
	t.join();
}
static void bad_deadlock() {
	std::mutex a, b;
	par(2, [&](int i) {
		std::scoped_lock l(i ? a : b);
		std::scoped_lock k(i ? b : a);
	});
}
static void bad_lost_wakeup() {
	std::mutex m;
	std::condition_variable c;
	std::atomic<bool> f{false};
	std::thread t([&] {
		std::unique_lock l(m);
		while (!f) c.wait(l);
	});
	f = true;
	c.notify_one();
	t.join();
}
static void bad_uaf() {
	int* p = new int(1);
	std::thread t([=] { delete p; });
	vrt_yield();
	vrt_sig(*(volatile int*)p);
	t.join();
}
static void bad_leak() {
	int* volatile p = new int(3);
	vrt_sig(*p);
}
static void bad_order() { // store buffering needs stale loads
	std::atomic<int> x{0}, y{0};
	int a = 9, b = 9;
	std::thread t([&] {
		x.store(1, std::memory_order_relaxed);
		a = y.load(std::memory_order_relaxed);
	});
	y.store(1, std::memory_order_relaxed);
	b = x.load(std::memory_order_relaxed);
	t.join();
	if (!a && !b) vrt_fail("self", "both stale");
}
static void good_order() {
	std::atomic<int> x{0}, y{0};
	int a = 9, b = 9;
	std::thread t([&] {
		x.store(1);
		a = y.load();
	});
	y.store(1);
	b = x.load();
	t.join();
	if (!a && !b) vrt_fail("self", "both stale although sequentially consistent");
}
static const vrt_scenario tab[] = {
	{"mutex", excl<std::mutex>, 0},
	{"recursive_mutex", excl<std::recursive_mutex>, 0},
	{"shared_mutex", excl<std::shared_mutex>, 0},
	{"spin", excl<spin>, 0},
	{"spin_wait", excl<spin_wait>, 0},
	{"ticket", excl<ticket>, 0},
	{"semaphore", excl<sem>, 0},
	{"pspin", excl<pspin>, 0},
	{"timed", excl<timed>, 0},
	{"stimed", excl<stimed>, 0},
	{"ptr_lock", excl<ptr_lock>, 0},
	{"shared", shared, 0},
	{"recursive", recursive, 0},
	{"cv", cv<std::condition_variable, std::mutex>, 0},
	{"cv_any", cv<std::condition_variable_any, std::mutex>, 0},
	{"cv_any_shared", cv<std::condition_variable_any, std::shared_mutex>, 0},
	{"cv_any_spin", cv<std::condition_variable_any, spin_wait>, 0},
	{"barriers", barriers, 0},
	{"once_future", once_future, 0},
	{"shared_ptrs", shared_ptrs, 0},
	{"jthreads", jthreads, 0},
	{"good_order", good_order, 0},
	{"bad_race", bad_race, 0},
	{"bad_publish", bad_publish, 0},
	{"bad_deadlock", bad_deadlock, 0},
	{"bad_lost_wakeup", bad_lost_wakeup, 0},
	{"bad_uaf", bad_uaf, 0},
	{"bad_leak", bad_leak, 0},
	{"bad_order", bad_order, 0},
};
int main(int argc, char** argv) { return vrt_main(argc, argv, tab, sizeof tab / sizeof *tab); }
