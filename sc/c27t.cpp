// C27, C28: fibers on real threads under the real sanitizers
#include "hd.h"
#include <asyncpp/sync_wait.h>
#include <asyncpp/defer.h>
#include <asyncpp/event.h>
#include <asyncpp/fiber.h>
#include <asyncpp/mutex.h>
#include <asyncpp/task.h>
#include <asyncpp/thread_pool.h>
#include <atomic>
#include <future>
using namespace h;
namespace {
	using namespace asyncpp;
	struct ctx {
		thread_pool* tp;
		asyncpp::mutex mtx;
		long guarded = 0;
		std::atomic<long> hops{0}, unwound{0}, fibers{0};
	};
	struct rng {
		u64 s;
		u64 operator()(u64 n) {
			s = hmix(s, 0x77);
			return s % n;
		}
	};
	struct probe {
		ctx* c;
		u64 v, *out;
		~probe() {
			CHECK(*out == v, "object on the stack of a fiber damaged");
			c->unwound.fetch_add(1, std::memory_order_relaxed);
		}
	};
	long work(ctx* c, rng r, int depth, int level);
	__attribute__((noinline)) long down(ctx* c, rng& r, int n, int level) {
		char pad[40];
		for (char& x : pad) x = (char)n;
		u64 v = r.s, copy = v;
		probe p{c, v, &copy};
		long x = n ? down(c, r, n - 1, level) + 1 : work(c, {r(1u << 30)}, 2, level);
		if (r(4) == 0) {
			fib_await defer{c->tp};
			c->hops.fetch_add(1, std::memory_order_relaxed);
		}
		for (char y : pad) CHECK(y == (char)n, "stack of a fiber damaged");
		return x;
	}
	task<long> coro(ctx* c, u64 s, int level) {
		co_await defer{c->tp};
		c->hops.fetch_add(1, std::memory_order_relaxed);
		long x = co_await fiber<long>([=]() { return work(c, {s}, 2, level); }, 1 << 17);
		co_await defer{c->tp};
		co_return x + 1;
	}
	long work(ctx* c, rng r, int steps, int level) {
		c->fibers.fetch_add(1, std::memory_order_relaxed);
		long acc = 0;
		for (int i = 0; i < steps; i++) {
			switch (r(level > 0 ? 7 : 4)) {
			case 0:
				fib_await defer{c->tp};
				c->hops.fetch_add(1, std::memory_order_relaxed);
				break;
			case 1: {
				auto l = fib_await c->mtx.lock_scoped();
				c->guarded++;
				break;
			}
			case 2: {
				single_consumer_event e;
				c->tp->push([&e]() { e.set(); });
				fib_await e.wait(c->tp);
				break;
			}
			case 3:
				try {
					u64 v = r.s, copy = v;
					probe p{c, v, &copy};
					throw (long)r(100);
				} catch (long v) {
					fib_await defer{c->tp}; // while it is being handled
					try {
						throw;
					} catch (long v2) { CHECK(v == v2, "another exception is handled after a fiber was suspended"); }
					acc += v;
				}
				break;
			case 4: acc += down(c, r, (int)r(20), level - 1); break;
			case 5: {
				u64 s = r(1u << 30);
				fiber<long> f([=]() { return work(c, {s}, 2, level - 1); }, 1 << 17);
				acc += fib_await f.await();
				break;
			}
			default: {
				u64 s = r(1u << 30);
				auto t = coro(c, s, level - 1);
				acc += fib_await std::move(t).operator co_await();
			}
			}
			acc = (long)(hmix(acc, (u64)i) >> 9);
		}
		return acc;
	}
	void pool() {
		reset_globals();
		{
			thread_pool tp(1 + rnd(4));
			ctx c{&tp};
			std::vector<std::future<long>> res;
			std::vector<u64> seeds;
			int n = 1 + (int)rnd(8);
			for (int i = 0; i < n; i++) seeds.push_back(vrt_rand64());
			for (int i = 0; i < n; i++) res.push_back(as_promise([](ctx* c, u64 s) -> task<long> {
				co_await defer{c->tp};
				if (s & 1) {
					fiber<long> f([=]() { return work(c, {s}, 6, 3); });
					co_return co_await f;
				}
				co_return co_await fiber<long>([=]() { return work(c, {s}, 6, 3); });
			}(&c, seeds[i])));
			u64 sum = 0;
			for (auto& f : res) sum = hmix(sum, (u64)f.get());
			vrt_sig(sum);
			vrt_count("fibers", c.fibers.load());
			vrt_count("hops", c.hops.load());
			if (c.hops.load() > 4) vrt_nontrivial();
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"pool", pool, 0})
