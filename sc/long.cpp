// Long bodies (their stack use must not grow) and combinators with dozens of arguments; built with optimisation and
// without sanitizers, because these keep the compiler from making resumptions tail calls.
#include "scale.h"
using namespace h;
#ifdef ONLY
#define PART(x) (ONLY == x)
#else
#define PART(x) 1
#endif
#if PART(11)
#include <asyncpp/promise.h>
namespace {
	template<class T, size_t N, class F>
	auto with_args(std::vector<asyncpp::promise<T>>& a, F&& f) {
		return [&]<size_t... I>(std::index_sequence<I...>) { return f(a[I]...); }(std::make_index_sequence<N>{});
	}
	template<size_t N>
	void many_args() {
		std::vector<asyncpp::promise<u32>> a(N);
		int kind = (int)rnd(3);
		auto perm = permutation(N);
		vrt_sig(kind);
		vrt_sig(N);
		for (u32 x : perm) vrt_sig(x);
		vrt_nontrivial();
		auto rej = [&](u32 i) { a[i].reject(std::make_exception_ptr(trivial_error{(int)i})); };
		if (kind == 0) {
			auto r = with_args<u32, N>(a, [](auto&... x) { return asyncpp::promise_all(x...); });
			for (size_t k = 0; k < N; k++) {
				CHECK(r.is_pending(), "promise_all settled with %zu of %zu arguments settled", k, N);
				coin(4) ? rej(perm[k]) : a[perm[k]].fulfill(1u);
			}
			CHECK(r.is_fulfilled(), "promise_all of %zu settled promises is not fulfilled", N);
		} else if (kind == 1) {
			auto r = with_args<u32, N>(a, [](auto&... x) { return asyncpp::promise_first_successful<u32>(x...); });
			size_t ok = coin() ? rnd(N) : N;
			for (size_t k = 0; k < N; k++) {
				if (k <= ok) CHECK(r.is_pending(), "promise_first_successful settled after %zu of %zu rejections", k, N);
				k == ok ? a[perm[k]].fulfill(77u) : rej(perm[k]);
			}
			if (ok < N) CHECK(r.is_fulfilled() && *r.try_get() == 77, "promise_first_successful does not have the value");
			else {
				CHECK(r.is_rejected(), "promise_first_successful of %zu rejected promises is not rejected", N);
				try {
					(void)r.get();
				} catch (trivial_error& e) { CHECK(e.v == (int)perm[N - 1], "not the last error"); }
			}
		} else {
			auto r = with_args<u32, N>(a, [](auto&... x) { return asyncpp::promise_first<u32>(x...); });
			bool bad = coin();
			for (size_t k = 0; k < N; k++) {
				if (k == 0) CHECK(r.is_pending(), "promise_first settled first");
				bad ? rej(perm[k]) : a[perm[k]].fulfill(perm[k]);
			}
			if (bad) {
				CHECK(r.is_rejected(), "promise_first not rejected");
			} else CHECK(r.is_fulfilled() && *r.try_get() == perm[0], "promise_first has not the first value");
		}
	}
	void crowd_combine() {
		many_args<40>();
	}
} // namespace
#define S11 {"crowd_combine", crowd_combine, 0},
#else
#define S11
#endif

#if PART(17)
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
namespace {
	asyncpp::task<size_t> leaf(size_t v) { co_return v + 1; }
	asyncpp::task<size_t> loop(size_t n) {
		size_t s = 0;
		for (size_t i = 0; i < n; i++) s += co_await leaf(i);
		co_return s;
	}
	void long_loop() {
		size_t n = big(70000) * (1 + rnd(20));
		vrt_nontrivial();
		size_t r = asyncpp::as_promise(loop(n)).get();
		CHECK(r == n * (n + 1) / 2, "awaiting %zu tasks one after another: got %zu", n, r);
	}
} // namespace
#define S17 {"long_loop", long_loop, 0},
#else
#define S17
#endif

#if PART(18)
#include <asyncpp/generator.h>
namespace {
	asyncpp::generator<size_t> count_gen(size_t n) {
		for (size_t i = 0; i < n; i++) co_yield i;
	}
	void long_generator() {
		size_t n = big(70000) * (1 + rnd(20)), k = 0;
		for (auto& v : count_gen(n)) {
			CHECK(v == k, "element %zu has value %zu", k, v);
			k++;
		}
		CHECK(k == n, "%zu of %zu elements", k, n);
	}
} // namespace
#define S18 {"long_generator", long_generator, 0},
#else
#define S18
#endif

#if PART(19)
#include <asyncpp/async_generator.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
namespace {
	asyncpp::task<size_t> other(size_t v) { co_return v + 1; }
	asyncpp::async_generator<size_t> count_agen(size_t n) {
		for (size_t i = 0; i < n; i++) {
			co_yield i;
			if (i % 7 == 3) (void)co_await other(i);
		}
	}
	asyncpp::task<size_t> consume(size_t n) {
		auto gen = count_agen(n);
		size_t k = 0;
		auto it = co_await gen.begin();
		while (it != gen.end()) {
			CHECK(*it == k, "element %zu has value %zu", k, *it);
			k++;
			co_await ++it;
		}
		co_return k;
	}
	void long_async() {
		size_t n = big(70000) * (1 + rnd(20));
		size_t k = asyncpp::as_promise(consume(n)).get();
		CHECK(k == n, "%zu of %zu elements", k, n);
	}
} // namespace
#define S19 {"long_async", long_async, 0},
#else
#define S19
#endif

SCENARIOS(S11 S17 S18 S19)
