// C29: coroutine frames come from, and return to, the given allocator
#include <cstddef>
#include <cstdlib>
#include <memory>
#include <new>
// the allocator used when none is named
struct default_probe {
	using value_type = std::byte;
	using is_always_equal = std::true_type;
	std::byte* allocate(size_t n);
	void deallocate(std::byte* p, size_t n);
};
#define ASYNCPP_DEFAULT_ALLOCATOR ::default_probe
#include "nat.h"
#include <asyncpp/async_generator.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/generator.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#include <memory_resource>
#include <optional>
using namespace h;
namespace {
	const size_t FA = __STDCPP_DEFAULT_NEW_ALIGNMENT__; // what coroutine frames are entitled to
	struct arena {
		struct block {
			char *raw, *p;
			size_t n;
		};
		const char* name;
		std::vector<block> live;
		int allocs = 0, frees = 0, objects = 0, fail_at = -1;
		size_t skew = 0; // blocks are only aligned like std::byte has to be
		explicit arena(const char* s) : name(s) {}
		std::byte* allocate(size_t n) {
			if (fail_at == allocs) throw std::bad_alloc{};
			vrt_ignore i;
			allocs++;
			// malloc gives ASan redzones around every block
			char* raw = (char*)malloc(n + skew);
			char* p = raw;
			if (skew) {
				p = raw + skew;
			}
			memset(p, 0x5a, n);
			live.push_back({raw, p, n});
			return reinterpret_cast<std::byte*>(p);
		}
		void deallocate(std::byte* p, size_t n) {
			vrt_ignore i;
			for (size_t k = 0; k < live.size(); k++)
				if (live[k].p == (char*)p) {
					CHECK(live[k].n == n, "%s: block of %zu bytes returned as %zu bytes", name, live[k].n, n);
					free(live[k].raw);
					live.erase(live.begin() + k);
					frees++;
					return;
				}
			CHECK(false, "%s: block that was not allocated here was returned to it (or twice)", name);
		}
		bool owns(const void* q) const {
			for (auto& b : live)
				if ((char*)q >= b.p && (char*)q < b.p + b.n) return true;
			return false;
		}
		void reset() {
			vrt_ignore i;
			std::vector<block>().swap(live);
			allocs = frees = objects = 0;
			fail_at = -1;
			skew = 0;
		}
		void done() {
			CHECK(live.empty() && allocs == frees, "%s: %d frames allocated, %d returned", name, allocs, frees);
			CHECK(objects == 0, "%s: %d allocator objects are left", name, objects);
		}
	};
	arena g_default("default allocator"), g_stateless("stateless allocator"), g_a("allocator A"), g_b("allocator B");
	arena* g_expect; // where the frame of the coroutine being built has to come from
	// an allocator with state of any size and alignment; counts its objects
	template<size_t N, size_t A>
	struct stateful {
		using value_type = std::byte;
		using is_always_equal = std::false_type;
		arena* ar;
		struct alignas(A) payload {
			unsigned char c[N];
		} pl;
		explicit stateful(arena& a) : ar(&a) {
			memset(&pl, 0x11, sizeof(pl));
			ar->objects++;
		}
		stateful(const stateful& o) : ar(o.ar), pl(o.pl) { ar->objects++; }
		~stateful() {
			check();
			ar->objects--;
			memset(&pl, 0xdd, sizeof(pl));
		}
		void check() const {
			CHECK((uintptr_t)this % alignof(stateful) == 0, "allocator object is misaligned");
			for (auto x : pl.c) CHECK(x == 0x11, "allocator object damaged");
		}
		std::byte* allocate(size_t n) {
			check();
			return ar->allocate(n);
		}
		void deallocate(std::byte* p, size_t n) {
			check();
			ar->deallocate(p, n);
		}
		bool operator==(const stateful& o) const { return ar == o.ar; }
	};
	// owns a share of its arena; a moved from one is unusable
	struct sharing {
		using value_type = std::byte;
		using is_always_equal = std::false_type;
		std::shared_ptr<arena*> ar;
		char odd = 'x';
		std::byte* allocate(size_t n) {
			CHECK(ar && odd == 'x', "moved from allocator used");
			return (*ar)->allocate(n);
		}
		void deallocate(std::byte* p, size_t n) {
			CHECK(ar && odd == 'x', "moved from allocator used");
			(*ar)->deallocate(p, n);
		}
		bool operator==(const sharing& o) const { return ar == o.ar; }
	};
	// made from a reference to its resource, like test/debug_allocator.h
	struct by_reference {
		using value_type = std::byte;
		arena& ar;
		constexpr by_reference(arena& a) : ar{a} {}
		std::byte* allocate(size_t n) { return ar.allocate(n); }
		void deallocate(std::byte* p, size_t n) { ar.deallocate(p, n); }
	};
	struct stateless {
		using value_type = std::byte;
		std::byte* allocate(size_t n) { return g_stateless.allocate(n); }
		void deallocate(std::byte* p, size_t n) { g_stateless.deallocate(p, n); }
	};
	struct resource : std::pmr::memory_resource {
		arena* ar = nullptr;
		void* do_allocate(size_t n, size_t) override { return ar->allocate(n); }
		void do_deallocate(void* p, size_t n, size_t) override { ar->deallocate((std::byte*)p, n); }
		bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
	};
	// ---- bodies
	struct manual_evt {
		std::coroutine_handle<> hd{};
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> x) { hd = x; }
		void await_resume() {}
	};
	struct job {
		manual_evt ev;
		arena* from;
		int susp, boom, ran = 0, ended = 0;
	};
	template<size_t N>
	struct alignas(N ? FA : 1) fill { // as aligned as a frame can be
		volatile unsigned char c[N ? N : 1];
	};
	template<size_t N>
	void touch(job* j, fill<N>& f, const void* param) {
		CHECK((uintptr_t)&f % alignof(fill<N>) == 0, "local at %p in a coroutine frame of %s is misaligned", (const void*)&f, j->from->name);
		CHECK(j->from->owns((const void*)&f) && j->from->owns(param), "frame does not come from %s", j->from->name);
		for (size_t i = 0; i < sizeof(f.c); i++) f.c[i] = (unsigned char)(i * 7);
	}
	template<size_t N>
	void verify(fill<N>& f) {
		for (size_t i = 0; i < sizeof(f.c); i++) CHECK(f.c[i] == (unsigned char)(i * 7), "coroutine frame damaged");
	}
#define BODY                                     \
	fill<N> f;                                   \
	j->ran++;                                    \
	touch<N>(j, f, &tr);                         \
	CHECK(tr.get() == 3, "parameter damaged");
#define TAIL                                     \
	verify<N>(f);                                \
	j->ended++;
	template<size_t N, class A, class Arg>
	asyncpp::task<long, A> t_value(job* j, tracked tr, Arg) {
		BODY
		if (j->susp) co_await j->ev;
		if (j->boom) throw trivial_error{1};
		TAIL
		co_return 5;
	}
	template<size_t N, class A, class Arg>
	asyncpp::task<void, A> t_void(job* j, tracked tr, Arg) {
		BODY
		if (j->susp) co_await j->ev;
		if (j->boom) throw trivial_error{1};
		TAIL
	}
	template<size_t N, class A, class Arg>
	asyncpp::generator<int, A> t_gen(job* j, tracked tr, Arg) {
		BODY
		co_yield 1;
		if (j->boom) throw trivial_error{1};
		co_yield 2;
		TAIL
	}
	template<size_t N, class A, class Arg>
	asyncpp::async_generator<int, A> t_agen(job* j, tracked tr, Arg) {
		BODY
		co_yield 1;
		if (j->susp) co_await j->ev;
		if (j->boom) throw trivial_error{1};
		co_yield 2;
		TAIL
	}
	template<size_t N, class A, class Arg>
	asyncpp::fire_and_forget_task<A> t_lazy(job* j, tracked tr, Arg) {
		BODY
		if (j->susp) co_await j->ev;
		TAIL
	}
	template<size_t N, class A, class Arg>
	asyncpp::eager_fire_and_forget_task<A> t_eager(job* j, tracked tr, Arg) {
		BODY
		if (j->susp) co_await j->ev;
		TAIL
	}
	template<size_t N>
	struct object { // member functions and lambdas pass themselves first
		tracked me{9};
		template<class A, class Arg>
		asyncpp::task<long, A> member(job* j, tracked tr, Arg) {
			BODY
			CHECK(me.get() == 9, "object damaged");
			if (j->susp) co_await j->ev;
			TAIL
			co_return 5;
		}
	};
	template<size_t N>
	struct watched { // awaitable living in the frame of a launch task
		job* j;
		tracked tr{3};
		fill<N> f;
		explicit watched(job* x) : j(x) {}
		watched(const watched& o) : j(o.j) {}
		bool await_ready() {
			if constexpr (N != 0) touch<N>(j, f, this);
			else CHECK(j->from->owns(this), "frame does not come from %s", j->from->name);
			CHECK(tr.get() == 3, "awaitable damaged");
			j->ran++;
			return !j->susp;
		}
		void await_suspend(std::coroutine_handle<> x) { j->ev.hd = x; }
		void await_resume() {
			if constexpr (N != 0) verify<N>(f);
			j->ended++;
		}
	};
	struct aco { // harness coroutine with a malloc frame
		struct promise_type {
			aco get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_never initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { vrt_fail("oracle", "unexpected exception"); }
		};
		std::coroutine_handle<promise_type> h;
	};
	template<class T>
	aco await_value(T t, int* out) {
		try {
			if constexpr (std::is_void_v<decltype(t.operator co_await().await_resume())>) {
				co_await t;
				*out = 1;
			} else
				*out = (int)co_await t;
		} catch (const trivial_error& e) { *out = -e.v; }
	}
	template<class G>
	aco await_all(G g, int* out, int stop) {
		try {
			auto it = co_await g.begin();
			while (it != g.end() && *out < stop) {
				++*out;
				co_await ++it;
			}
		} catch (const trivial_error& e) { *out = -e.v; }
	}
	// ---- one coroutine of one kind with one allocator
	template<size_t N, class A, class Make>
	void one(arena& from, int how, Make&& arg) {
		job j;
		j.from = &from;
		j.susp = coin();
		j.boom = coin(4);
		int kind = (int)rnd(11);
		vrt_sig(kind * 100 + j.susp * 10 + j.boom + N * 100000 + how * 1000);
		int fails = coin(12);
		int before = from.allocs;
		using Arg = std::conditional_t<std::is_lvalue_reference_v<decltype(arg())>, decltype(arg()), std::remove_cvref_t<decltype(arg())>>;
		if (fails) from.fail_at = before;
		try {
			int out = 0;
			if (kind == 0 || kind == 1) {
				auto run = [&](auto t) {
					CHECK(j.ran == 0, "lazy task ran at once");
					if (coin(5)) return;
					auto c = await_value(std::move(t), &out);
					if (j.susp && coin(4)) {
						c.h.destroy(); // abandoned while suspended
						return;
					}
					if (j.susp) j.ev.hd.resume();
					CHECK(c.h.done(), "awaiter not resumed");
					CHECK(out == (j.boom ? -1 : kind == 0 ? 5 : 1), "task delivered %d", out);
					c.h.destroy();
				};
				if (kind == 0) run(t_value<N, A, Arg>(&j, tracked(3), arg()));
				else run(t_void<N, A, Arg>(&j, tracked(3), arg()));
			} else if (kind == 2) {
				object<N> o;
				auto t = o.template member<A, Arg>(&j, tracked(3), arg());
				auto c = await_value(std::move(t), &out);
				if (j.susp) j.ev.hd.resume();
				CHECK(c.h.done() && out == 5, "task delivered %d", out);
				c.h.destroy();
			} else if (kind == 3) {
				auto g = t_gen<N, A, Arg>(&j, tracked(3), arg());
				int stop = (int)rnd(4);
				try {
					if (stop)
						for (auto x : g) {
							CHECK(x == ++out, "generator yields %d", x);
							if (out == stop) break;
						}
				} catch (const trivial_error&) { CHECK(j.boom, "exception"); }
			} else if (kind == 4) {
				auto c = await_all(t_agen<N, A, Arg>(&j, tracked(3), arg()), &out, (int)rnd(4));
				if (j.ev.hd && coin(4)) {
					c.h.destroy();
					j.ev.hd = nullptr;
				} else {
					if (j.ev.hd) j.ev.hd.resume();
					CHECK(c.h.done(), "consumer not resumed");
					c.h.destroy();
				}
			} else if (kind == 5) {
				{
					auto t = t_lazy<N, A, Arg>(&j, tracked(3), arg());
					auto t2 = t;
					if (coin()) t2.start();
				}
				if (j.ev.hd) j.ev.hd.resume();
				CHECK(j.ran == j.ended, "lazy task did not end");
			} else if (kind == 6) {
				t_eager<N, A, Arg>(&j, tracked(3), arg());
				if (j.ev.hd) j.ev.hd.resume();
				CHECK(j.ran == 1 && j.ended == 1, "eager task did not end");
			} else if (kind == 7) { // lambda
				auto l = [](job* j, tracked tr, Arg) -> asyncpp::task<long, A> {
					BODY
					if (j->susp) co_await j->ev;
					TAIL
					co_return 5;
				};
				auto c = await_value(l(&j, tracked(3), arg()), &out);
				if (j.susp) j.ev.hd.resume();
				CHECK(c.h.done() && out == 5, "task delivered %d", out);
				c.h.destroy();
			} else if constexpr (std::is_same_v<std::remove_cvref_t<decltype(arg())>, A>) {
				if (kind == 8) {
					asyncpp::launch(watched<N>(&j), arg());
					if (j.ev.hd) j.ev.hd.resume();
				} else {
					asyncpp::async_launch_scope s;
					if (kind == 9) s.launch(watched<N>(&j), arg());
					else s.invoke_tuple([](job* x) { return watched<0>(x); }, std::make_tuple(&j), arg());
					if (!fails && j.susp) {
						auto fut = s.join_future(arg());
						CHECK(from.allocs == before + 2, "join_future() took its frame elsewhere");
						j.ev.hd.resume();
						CHECK(fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "join_future() not ready");
					} else if (j.ev.hd)
						j.ev.hd.resume();
				}
				CHECK(j.ran == 1 && j.ended == 1, "launched awaitable ran %d times", j.ran);
			} else {
				from.fail_at = -1;
				return;
			}
			CHECK(!fails, "allocation failure vanished");
			CHECK(from.allocs == before + (kind >= 9 && j.susp ? 2 : 1), "%d blocks of %s for one coroutine", from.allocs - before, from.name);
			vrt_count("frames", 1);
		} catch (const std::bad_alloc&) {
			CHECK(fails && from.allocs == before && j.ran == 0, "bad_alloc");
			vrt_count("allocation_failures", 1);
		}
		from.fail_at = -1;
		g_a.done();
		g_b.done();
		g_stateless.done();
		g_default.done();
		for (arena* a : {&g_a, &g_b, &g_stateless, &g_default})
			if (a != &from) CHECK(a->allocs == 0, "%s used for a frame of %s", a->name, from.name);
	}
	template<size_t N, int From, int To> // a range of allocators: every combination takes long to compile
	void sized() {
		for (arena* a : {&g_a, &g_b, &g_stateless, &g_default}) a->reset();
		arena& ar = coin() ? g_a : g_b;
		if (coin(3)) ar.skew = 1 + rnd(FA - 1);
		switch (From + rnd(To - From + 1)) {
		case 0: if constexpr (From <= 0 && 0 <= To) one<N, stateful<1, 1>>(ar, 0, [&]() { return stateful<1, 1>(ar); }); break;
		case 1: if constexpr (From <= 1 && 1 <= To) one<N, stateful<4, 4>>(ar, 1, [&]() { return stateful<4, 4>(ar); }); break;
		case 2: if constexpr (From <= 2 && 2 <= To) one<N, stateful<40, 8>>(ar, 2, [&]() { return stateful<40, 8>(ar); }); break;
		case 3: if constexpr (From <= 3 && 3 <= To) one<N, stateful<16, 16>>(ar, 3, [&]() { return stateful<16, 16>(ar); }); break;
		case 4: if constexpr (From <= 4 && 4 <= To) one<N, stateful<64, 64>>(ar, 4, [&]() { return stateful<64, 64>(ar); }); break;
		case 5: if constexpr (From <= 5 && 5 <= To) {
			auto sh = std::make_shared<arena*>(&ar);
			{
				one<N, sharing>(ar, 5, [&]() { return sharing{sh}; });
			}
			CHECK(sh.use_count() == 1, "%ld copies of the allocator were never destroyed", sh.use_count() - 1);
		}
		break;
		case 6: if constexpr (From <= 6 && 6 <= To) one<N, by_reference>(ar, 6, [&]() -> arena& { return ar; }); break;
		case 7: if constexpr (From <= 7 && 7 <= To) one<N, stateless>(g_stateless, 7, [&]() { return stateless{}; }); break;
		case 8: if constexpr (From <= 8 && 8 <= To) one<N, stateless>(g_stateless, 8, [&]() { return 17; }); break; // none passed
		case 9: if constexpr (From <= 9 && 9 <= To) one<N, asyncpp::default_allocator_type>(g_default, 9, [&]() { return 17; }); break;
		case 10: if constexpr (From <= 10 && 10 <= To) {
			resource r;
			r.ar = &ar;
			one<N, std::pmr::polymorphic_allocator<std::byte>>(ar, 10, [&]() { return std::pmr::polymorphic_allocator<std::byte>(&r); });
		}
		break;
		}
	}
	void frames() {
		reset_globals();
		switch (rnd(5)) {
		case 0: sized<0, 0, 1>(); break;
		case 1: sized<1, 2, 6>(); break;
		case 2: sized<24, 7, 10>(); break;
		case 3: sized<200, 0, 5>(); break;
		case 4: sized<5000, 4, 10>(); break;
		}
		vrt_nontrivial();
		for (arena* a : {&g_a, &g_b, &g_stateless, &g_default}) a->reset();
		check_quiescent();
	}
} // namespace
std::byte* default_probe::allocate(size_t n) { return g_default.allocate(n); }
void default_probe::deallocate(std::byte* p, size_t n) { g_default.deallocate(p, n); }
SCENARIOS({"frames", frames, 0})
