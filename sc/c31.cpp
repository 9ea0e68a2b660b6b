// C31: pointer tagging round-trips every aligned pointer and tag.  C32: scope_guard
#include "nat.h"
#include <asyncpp/ptr_tag.h>
#include <asyncpp/scope_guard.h>
#include <coroutine>
#include <optional>
using namespace h;
namespace {
	// ------------------------------------------------------------------ C31
	template<size_t A>
	struct alignas(A) obj {
		unsigned char c[A];
	};
	struct abstract {
		virtual void f() = 0;
		virtual ~abstract() = default;
	};
	struct derived : abstract {
		long x;
		void f() override {}
	};
	union un {
		char c;
		double d;
	};
	enum class tag : unsigned char {};
	enum class wide_tag : unsigned long {};
	uintptr_t address(size_t align) { // any aligned address: null, small, ordinary, high
		uintptr_t a;
		switch (rnd(6)) {
		case 0: a = 0; break;
		case 1: a = align * (1 + rnd(4)); break;
		case 2: a = ~uintptr_t{0}; break;
		case 3: a = uintptr_t{1} << rnd(64); break;
		case 4: a = vrt_rand(~u64{0}); break;
		default: a = 0x00007fff00000000ull + vrt_rand(0xffffffffull); break;
		}
		return a & ~(uintptr_t)(align - 1);
	}
	u64 g_trips;
	template<class T, size_t ID>
	void trip(uintptr_t a) {
		T* p = reinterpret_cast<T*>(a);
		const T* cp = p;
		g_trips++;
		CHECK((std::is_same_v<decltype(asyncpp::ptr_tag<ID>(p)), void*>), "constness or type lost");
		CHECK((std::is_same_v<decltype(asyncpp::ptr_tag<ID>(cp)), const void*>), "constness or type lost");
		void* t = asyncpp::ptr_tag<ID>(p);
		const void* ct = asyncpp::ptr_tag<ID>(cp);
		CHECK((std::is_same_v<decltype(asyncpp::ptr_untag<T>(t).first), T*>), "constness or type lost");
		CHECK((std::is_same_v<decltype(asyncpp::ptr_untag<T>(ct).first), const T*>), "constness or type lost");
		auto [q, id] = asyncpp::ptr_untag<T>(t);
		auto [cq, cid] = asyncpp::ptr_untag<T>(ct);
		CHECK(q == p && id == ID, "alignment %zu: untagging (%p, %zu) gives (%p, %zu)", alignof(T), (void*)p, ID, (void*)q, (size_t)id);
		CHECK(cq == cp && cid == ID, "alignment %zu: untagging const (%p, %zu) gives (%p, %zu)", alignof(T), (void*)p, ID, (const void*)cq, (size_t)cid);
		if constexpr (ID < 256) {
			void* e = asyncpp::ptr_tag<static_cast<tag>(ID)>(p);
			const void* ce = asyncpp::ptr_tag<static_cast<tag>(ID)>(cp);
			auto [eq, eid] = asyncpp::ptr_untag<T, tag>(e);
			auto [ceq, ceid] = asyncpp::ptr_untag<T, tag>(ce);
			CHECK((std::is_same_v<decltype(asyncpp::ptr_untag<T, tag>(ce).first), const T*> && std::is_same_v<decltype(asyncpp::ptr_untag<T, tag>(ce).second), tag>), "constness or type lost");
			CHECK(eq == p && eid == static_cast<tag>(ID) && ceq == cp && ceid == static_cast<tag>(ID), "alignment %zu: enumerator %zu on %p does not survive", alignof(T), ID, (void*)p);
		}
		void* w = asyncpp::ptr_tag<static_cast<wide_tag>(ID)>(p);
		auto [wq, wid] = asyncpp::ptr_untag<T, wide_tag>(w);
		CHECK(wq == p && wid == static_cast<wide_tag>(ID), "alignment %zu: enumerator %zu on %p does not survive", alignof(T), ID, (void*)p);
		CHECK(asyncpp::ptr_get_tag<T>(t) == ID && asyncpp::ptr_get_tag<T>(ct) == ID, "tag %zu is read back as %zu", ID, asyncpp::ptr_get_tag<T>(t));
	}
	template<class T, size_t... I>
	void all(std::index_sequence<I...>) {
		for (int k = 0; k < 4; k++) {
			uintptr_t a = address(alignof(T));
			vrt_sig(a);
			(trip<T, I>(a), ...);
		}
	}
	// A tag that has no room below the pointer is either refused by the compiler or handled without losing anything.
	template<class T, size_t ID>
	void misfit() {
		T* p = reinterpret_cast<T*>(address(alignof(T)));
		const T* cp = p;
		if constexpr (requires { asyncpp::ptr_tag<ID>(p); }) {
			auto [q, id] = asyncpp::ptr_untag<T>(asyncpp::ptr_tag<ID>(p));
			CHECK(q == p && id == ID, "alignment %zu: tag %zu is accepted, but untagging gives (%p, %zu)", alignof(T), ID, (void*)q, (size_t)id);
		}
		if constexpr (requires { asyncpp::ptr_tag<ID>(cp); }) {
			auto [q, id] = asyncpp::ptr_untag<T>(asyncpp::ptr_tag<ID>(cp));
			CHECK(q == cp && id == ID, "alignment %zu: tag %zu is accepted, but untagging const gives (%p, %zu)", alignof(T), ID, (const void*)q, (size_t)id);
		}
		g_trips++;
	}
	template<class T>
	void each() {
		misfit<T, alignof(T)>();
		misfit<T, alignof(T) + 1>();
		misfit<T, alignof(T) * 2>();
		misfit<T, alignof(T) * 256 + 1>();
		constexpr size_t n = alignof(T) <= 64 ? alignof(T) : 64;
		all<T>(std::make_index_sequence<n>());
		if constexpr (alignof(T) > 64) {
			uintptr_t a = address(alignof(T));
			trip<T, alignof(T) - 1>(a);
			trip<T, alignof(T) / 2>(a);
			trip<T, alignof(T) / 2 + 1>(a);
			trip<T, alignof(T) - 2>(a);
		}
		// a real object comes back usable
		if constexpr (alignof(T) <= 64 && std::is_default_constructible_v<T>) {
			T t{};
			constexpr size_t id = alignof(T) - 1;
			auto [p, i] = asyncpp::ptr_untag<T>(asyncpp::ptr_tag<id>(&t));
			CHECK(p == &t && i == id, "object lost");
			*p = T{};
		}
	}
	// sets of candidate types
	template<size_t ID, class T, class... All>
	void one_of(uintptr_t a) {
		T* p = reinterpret_cast<T*>(a & ~(uintptr_t)(alignof(T) - 1));
		const T* cp = p;
		size_t r = asyncpp::ptr_get_tag<All...>(asyncpp::ptr_tag<ID>(p)), cr = asyncpp::ptr_get_tag<All...>(asyncpp::ptr_tag<ID>(cp));
		CHECK(r == ID && cr == ID, "tag %zu put into a pointer with alignment %zu is read back as %zu through a set of types with smallest alignment %zu", ID, alignof(T), r, asyncpp::min_alignof<All...>());
		auto [q, id] = asyncpp::ptr_untag<T>(asyncpp::ptr_tag<ID>(p));
		CHECK(q == p && id == ID, "pointer lost");
		g_trips++;
	}
	template<class... T, size_t... I>
	void set_ids(std::index_sequence<I...>) {
		uintptr_t a = address(1);
		vrt_sig(a);
		auto ids = [&]<class X>(X*) { (one_of<I, X, T...>(a), ...); };
		(ids(static_cast<T*>(nullptr)), ...);
	}
	template<class... T>
	void set_of() {
		constexpr size_t m = std::min({alignof(T)...});
		CHECK((asyncpp::min_alignof<T...>() == m), "min_alignof() is %zu", asyncpp::min_alignof<T...>());
		set_ids<T...>(std::make_index_sequence<m>());
	}
	void tags() {
		reset_globals();
		g_trips = 0;
		each<char>();
		each<short>();
		each<int>();
		each<long>();
		each<long double>();
		each<char*>();
		each<abstract>();
		each<derived>();
		each<un>();
		each<obj<1>>();
		each<obj<2>>();
		each<obj<16>>();
		each<obj<32>>();
		each<obj<64>>();
		each<obj<128>>();
		each<obj<4096>>();
		each<void (*)()>();
		set_of<int>();
		set_of<long, int>();
		set_of<int, long>();
		set_of<obj<64>, long, obj<16>>();
		set_of<obj<16>, obj<64>, obj<32>>();
		set_of<derived, abstract, double>();
		set_of<short, obj<128>, int>();
		set_of<obj<8>, obj<4096>, obj<8>, long>();
		set_of<char, long>();
		vrt_count("roundtrips", g_trips);
		vrt_nontrivial();
		check_quiescent();
	}
	// ------------------------------------------------------------------ C32
	struct counter {
		int calls = 0;
		bool expected = true; // may the action run now
	};
	struct action {
		counter* c;
		tracked t;
		void operator()() noexcept {
			CHECK(t.get() == 12, "function of the guard damaged");
			CHECK(c->expected, "guard fired although it is disengaged");
			c->calls++;
		}
	};
	struct toggles {
		int n;
		bool v[8];
		bool last(bool init) const { return n ? v[n - 1] : init; }
	};
	toggles some() {
		toggles t;
		t.n = (int)rnd(6);
		for (auto& x : t.v) x = coin();
		return t;
	}
	template<class G>
	void play(G& g, const toggles& t, int upto) {
		for (int i = 0; i < t.n && i < upto; i++) {
			if (t.v[i]) g.engage();
			else g.disengage();
			CHECK(g.is_engaged() == t.v[i], "is_engaged() is wrong");
		}
	}
	struct gen {
		struct promise_type {
			gen get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_always initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { throw; }
		};
		std::coroutine_handle<promise_type> h;
	};
	gen in_coroutine(counter* c, bool init, toggles t, int how) {
		asyncpp::scope_guard g(action{c, tracked(12)}, init);
		CHECK(g.is_engaged() == init, "is_engaged() is wrong");
		play(g, t, 9);
		if (how == 0) co_return;
		if (how == 1) throw trivial_error{1};
		co_await std::suspend_always{};
		CHECK(c->calls == 0, "guard fired while its scope was alive");
	}
	void leave_by_return(counter* c, bool init, const toggles& t, int where) {
		asyncpp::scope_guard g(action{c, tracked(12)}, init);
		play(g, t, 9);
		if (where == 0) return;
		CHECK(&g.function() == &static_cast<const decltype(g)&>(g).function() && g.function().c == c, "function() is not the function");
		if (where == 1) throw trivial_error{2};
		{
			asyncpp::scope_guard inner(action{c, tracked(12)}, !g.is_engaged());
			inner.disengage();
		}
		CHECK(c->calls == 0, "guard fired before the end of its scope");
	}
	void guards() {
		reset_globals();
		{
			toggles t = some();
			bool init = coin();
			int how = (int)rnd(5), kind = (int)rnd(4);
			counter c;
			bool want = t.last(init);
			c.expected = want;
			if (kind == 0) {
				gen g = in_coroutine(&c, init, t, how);
				CHECK(c.calls == 0, "guard fired before it existed");
				if (how == 4) want = false; // never started
				else {
					try {
						g.h.resume();
						if (how == 2) g.h.resume();
					} catch (trivial_error&) { CHECK(how == 1, "exception"); }
				}
				if (how == 3) CHECK(c.calls == 0, "guard of a suspended coroutine fired");
				g.h.destroy();
			} else if (kind == 1) {
				try {
					leave_by_return(&c, init, t, how);
				} catch (trivial_error& e) { CHECK(e.v == 2, "exception changed"); }
			} else if (kind == 2) { // on the heap, default argument, other callables
				int n = 0;
				auto fn = [&n]() noexcept { n++; };
				if (coin()) {
					auto g = new asyncpp::scope_guard(fn);
					CHECK(g->is_engaged(), "guard is not engaged by default");
					want = t.last(true);
					play(*g, t, 9);
					delete g;
				} else {
					std::optional<asyncpp::scope_guard<decltype(fn)>> g;
					g.emplace(fn, init);
					play(*g, t, 9);
					g.reset();
				}
				c.calls = n;
			} else { // several guards fire in reverse order
				std::vector<int> order, wanted;
				{
					auto a = [&order]() noexcept { order.push_back(1); };
					auto b = [&order]() noexcept { order.push_back(2); };
					auto d = [&order]() noexcept { order.push_back(3); };
					asyncpp::scope_guard ga(a, t.v[0]);
					asyncpp::scope_guard gb(b, t.v[1]);
					asyncpp::scope_guard gd(d, t.v[2]);
					if (t.v[3]) ga.engage();
					if (t.v[4]) gb.disengage();
					if (t.v[2]) wanted.push_back(3);
					if (t.v[1] && !t.v[4]) wanted.push_back(2);
					if (t.v[0] || t.v[3]) wanted.push_back(1);
				}
				CHECK(order == wanted, "guards fired %zu times", order.size());
				want = c.calls;
			}
			CHECK(c.calls == want, "guard fired %d times, it was %s last", c.calls, want ? "engaged" : "disengaged");
			vrt_sig(t.n * 100000 + init * 10000 + how * 100 + kind);
			for (int i = 0; i < t.n; i++) vrt_sig(t.v[i]);
			vrt_count(want ? "fired" : "not_fired", 1);
			vrt_nontrivial();
		}
		check_quiescent();
	}
} // namespace
SCENARIOS({"tags", tags, 0}, {"guards", guards, 0})
